#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}})
T2 = "src/col2d/transformation2d/"
D2 = "src/col2d/detection/"
S2 = "src/col2d/shape/"
GJK = S2 + "local_minkowski_diff/"

prop("C01", "Inverting a 2D placement undoes it",
 "For every 2D transformation type (identity, plain vector, translation, translation with scale, full transform) and every point, un-applying an applied point and applying an un-applied point give the point back up to float rounding, for any non-zero scale per axis, and the origin shortcut equals applying the transformation to the zero point. The inverse of a transformation with uniform scale (or without rotation) applied after the transformation is the identity, and so is the transformation applied after its inverse. The inverse acts on every point as un-apply does.",
 ["inputs"], "all transformations with non-zero scale, all points",
 "Unit tests invert a handful of transforms, none with both a translation and a scale other than 1 until a point far from the origin is used; the law ranges over a continuous space.",
 [T2 + "mod.rs", T2 + "axis_transform2d.rs", T2 + "transform2d.rs", T2 + "translate2d.rs", "src/col/transform.rs"],
 [("Invertible::inverse", T2 + "*.rs"), ("Transformation2d::unapply", T2 + "*.rs")], ["apply", "unapply", "inverse", "apply_origin"])
prop("C02", "Composition and relative transforms chain 2D placements correctly",
 "Composing two placements acts on every point as applying the second and then the first, composition is associative and has the identity placement as neutral element, and the relative transform from a to b takes b-local coordinates into a's frame, so applying it and then a equals applying b. A full transform scales per axis first, then rotates, then translates, whichever constructor or builder method made it. The default value of every placement type is the identity placement. This holds up to float rounding for uniform scale, and for any scale when nothing is rotated.",
 ["inputs"], "all pairs and triples of placements of one type, all points",
 "Tests check a few hand-picked transforms (one per file); wrong order, a dropped factor or a sign only shows for combined translation, rotation and scale.",
 [T2 + "axis_transform2d.rs", T2 + "transform2d.rs", T2 + "translate2d.rs", "src/col/transform.rs"],
 [("Composable::compose", T2 + "*.rs"), ("DeltaTransform::delta_transform", "src/col/transform.rs")], ["compose", "delta_transform", "apply"])
prop("C03", "2D rotations are exact rotations and directions ignore position and scale",
 "A 2D rotation made from an angle turns every vector counter-clockwise by that angle and keeps its length; its reported angle equals it modulo a full turn, the product of rotations adds angles and the inverse negates them. A rotation made from a unit quaternion is the quaternion's turn about the Z axis and is length preserving for every unit quaternion. Mapping a direction through a placement applies only its rotation, independent of translation and of positive scale, and un-mapping it restores the direction.",
 ["inputs"], "all angles, all unit quaternions, all vectors",
 "Tests rotate unit axes by multiples of 90 degrees and use quaternions about Z only.",
 [T2 + "mod.rs", T2 + "transform2d.rs"], [("Rotor2d", T2 + "mod.rs"), ("apply_normal / unapply_normal", T2 + "*.rs")],
 ["Rotor2d::from_angle", "Rotor2d::angle", "Rotor2d::inverse", "Rotor2d * Rotor2d", "Rotor2d * Vec2", "Rotor2d::from_quaternion", "apply_normal", "unapply_normal", "scaling_factor"])
prop("C04", "Extreme points are the farthest points of the shape, in place",
 "For every 2D shape (point, ball, box, convex polygon and the shape union) and every non-zero direction, the extreme point belongs to the shape and no point of the shape lies farther along the direction, up to float rounding. For a collider, that is a shape placed by a translation, rotation and uniform positive scale, the extreme point in a world direction is the farthest point of the placed shape. The result does not depend on the length of the direction.",
 ["inputs"], "all shapes, all placements with uniform positive scale, all non-zero directions",
 "Tests query axis directions of two shapes; every collision answer is built from support points in arbitrary directions.",
 [S2 + "ball2d/mod.rs", S2 + "box2d/mod.rs", S2 + "poly2d/mod.rs", S2 + "point2d.rs", S2 + "mod.rs", "src/col2d/collider2d.rs", D2 + "extreme_point.rs"],
 [("ExtremePoint2d::extreme_point", S2), ("ExtremePointT2d::extreme_point_t", D2 + "extreme_point.rs"), ("Collider2d", "src/col2d/collider2d.rs")],
 ["extreme_point", "extreme_point_t", "Collider2d::extreme_point"])
prop("C05", "Bounding boxes contain the shape and are the smallest such",
 "The symmetric bounding box of a point, ball, box or polygon is the smallest origin-centred axis-aligned box that contains every point of the shape. Growing a box to cover a point gives the smallest origin-centred box that contains both the old box and the point. Covering never shrinks a box, and covering a point that is already inside leaves it unchanged.",
 ["inputs"], "all shapes, all sequences of covered points",
 "No test computes a bounding box of a polygon; broad-phase and tilemap resolution silently miss contacts if a box is too small.",
 ["src/col2d/mod.rs", S2 + "box2d/mod.rs", S2 + "poly2d/mod.rs", S2 + "ball2d/mod.rs", S2 + "point2d.rs"],
 [("SymmetricBoundingBox2d", "src/col2d/mod.rs"), ("Box2d::cover", S2 + "box2d/mod.rs")], ["symmetric_bounding_box", "cover"])
prop("C06", "Polygon constructors and the polygon validity check are right",
 "A regular polygon has exactly the requested number of vertices, all at the requested distance from the origin and evenly spaced around it, starting on the +X axis (or on the +Y axis for the upright variant); a polygon made from a box has exactly the four corners of the box, and one made from points has exactly those points. The strict validity check accepts a polygon exactly when each of its vertices is the farthest of all its vertices in that vertex's own direction from the origin.",
 ["inputs"], "all side counts and radii, all boxes, all vertex lists",
 "Tests check one valid triangle; no test constructs a regular polygon or an invalid polygon and looks at the result.",
 [S2 + "poly2d/mod.rs"], [("Poly2d::regular / regular_upright / new / From<Box2d>", S2 + "poly2d/mod.rs"), ("Poly2d::strict_check", S2 + "poly2d/mod.rs")],
 ["Poly2d::points", "strict_check"])
prop("C07", "Point, ball and box-ball queries give the exact signed distance",
 "For point-point, point-ball, point-box, ball-ball and box-ball (with the orders the API offers), placed by any rotation, translation and uniform positive scale, overlap is reported exactly when the exact signed distance is negative, and every returned vector has exactly the length of that signed distance, up to float rounding. Where the scalar signed distance is offered it equals the exact one, including its sign. Moving the first shape by the returned vector leaves the two shapes exactly touching.",
 ["inputs"], "all sizes, all placements, all query modes, both argument orders",
 "Tests check tens of hand-picked placements; the regions of the plane around a box (faces, corners, inside) and the rounding of corners are only sampled.",
 [S2 + "ball2d/v_ball2d.rs", S2 + "ball2d/v_point.rs", S2 + "box2d/v_ball.rs", S2 + "box2d/v_point.rs", S2 + "rounded_box2d/v_point.rs", S2 + "point2d.rs"],
 [("SdfvCommonRel2d impls", S2), ("SdfRel2d impls", S2), ("impl_reverse_sdfv_common_rel", S2 + "point2d.rs")],
 ["collides_rel", "penetrates_rel", "distance_to_rel", "sdfv_rel", "sdf_rel"])
prop("C08", "Overlap is reported exactly when two shapes overlap",
 "For every supported pair of 2D shapes (points, balls, boxes, convex polygons containing the origin, and the shape union), at any relative rotation, translation and uniform positive scale, every query mode reports overlap if the shapes overlap and no overlap if they are separated, for any penetration or gap above float rounding.",
 ["inputs"], "all shape pairs and placements, all four query modes",
 "Tests sweep one pair of squares along a few lines; the iterative algorithm takes a different path through its case analysis for almost every input.",
 [GJK + "mod.rs", GJK + "v.rs", D2 + "sdfv_minkowski.rs", D2 + "sdfv_common.rs", D2 + "collides.rs"],
 [("GJK loops", GJK + "v.rs"), ("Simplex2d::add_point", GJK + "mod.rs"), ("LocalMinkowskiDiff2d::extreme_point", GJK + "mod.rs")],
 ["collides_rel", "penetrates_rel", "distance_to_rel", "sdfv_rel"], [("Simplex2d", "up to three support points", GJK + "mod.rs")])
prop("C09", "Separated shapes report their true distance within 1%",
 "For every pair of separated convex 2D shapes handled by the iterative algorithm, the distance query and the signed-distance-vector query return a vector whose length is the true distance between the shapes, with a relative error of at most about 1% plus float rounding. The answer is always present when the shapes are separated.",
 ["inputs"], "all shape pairs, all separated placements",
 "Tests compare a few dozen box-box distances; round and many-sided shapes and corner-corner configurations need many iterations and are not covered.",
 [GJK + "v.rs", GJK + "mod.rs", D2 + "distance_to.rs", D2 + "sdfv.rs"],
 [("distance iteration and its 1% stop criterion", GJK + "v.rs"), ("Simplex2d::distance_to_origin", GJK + "mod.rs")], ["distance_to_rel", "sdfv_rel"])
prop("C10", "Overlapping shapes report their true penetration depth within 1%",
 "For every pair of overlapping convex 2D shapes handled by the iterative algorithm, the penetration query and the signed-distance-vector query return a vector whose length is the true (minimal) penetration depth, with a relative error of at most about 1% plus float rounding. The answer is always present when the shapes overlap.",
 ["inputs"], "all shape pairs, all overlapping placements",
 "Tests check a few box-box penetrations where the first expanded edge is already the answer; deep, coincident and round configurations need the full expansion.",
 [GJK + "mod.rs", GJK + "v.rs", D2 + "penetrates.rs"], [("EpaPoly2d::calculate_penetration", GJK + "mod.rs"), ("find_closest_edge", GJK + "mod.rs")],
 ["penetrates_rel", "sdfv_rel"], [("EpaPoly2d", "expanding polytope", GJK + "mod.rs")])
prop("C11", "Moving the first shape by the returned vector makes the shapes touch",
 "For every pair of 2D shapes and placement, moving the first shape by the vector the penetration query returns separates the overlapping shapes, and moving it by the vector the distance query returns brings separated shapes into contact; in both cases the remaining gap or overlap is at most about 1% of the vector's length plus float rounding. The same holds for the signed-distance vector.",
 ["inputs"], "all shape pairs and placements, all vector-valued queries",
 "Tests compare vectors for axis-aligned boxes; a wrong direction or sign only shows when the answer is actually applied to rotated or round shapes.",
 [GJK + "mod.rs", GJK + "v.rs", S2 + "point2d.rs", S2 + "box2d/v_ball.rs", S2 + "rounded_box2d/v_point.rs"],
 [("EPA normal and sign convention", GJK + "mod.rs"), ("reverse impls", S2 + "point2d.rs")], ["penetrates_rel", "distance_to_rel", "sdfv_rel"])
prop("C12", "All query modes and call forms describe the same situation",
 "For every pair of placed 2D shapes, clear of touching, exactly one of penetration and distance has an answer, the overlap test and the signed-distance flag agree with which one, the signed-distance vector is as long as that answer (within the 1% of iterative queries), and a scalar signed distance equals that length with the sign of the relation. The world-space call forms (two colliders, two tuples, or mixed) give the same answers as each other and as the relative form evaluated with the relative transform, expressed in world orientation and size.",
 ["inputs", "configurations"], "all shape pairs and placements, all modes, all call forms, all transformation types",
 "The four modes are four separate code paths and the call forms are generic conversions; tests exercise each form on one or two inputs.",
 [D2 + "collides.rs", D2 + "penetrates.rs", D2 + "distance_to.rs", D2 + "sdfv.rs", D2 + "sdf.rs", D2 + "sdfv_common.rs", "src/col2d/collider2d.rs"],
 [("const-generic mode selection", D2 + "sdfv_common.rs"), ("From<(&S, &T)> for Collider2d", "src/col2d/collider2d.rs")],
 ["collides", "penetrates", "distance_to", "sdfv", "sdf", "*_rel"])
prop("C13", "Swapping the two shapes mirrors the answer",
 "For every pair of 2D shapes whose both orders are supported, querying b against a gives the same overlap decision as querying a against b and vectors of the same length (within the 1% of iterative queries), for separated shapes also in the opposite direction wherever the closest points are unique. Applying the swapped vector to the second shape resolves the situation just as the original applied to the first does.",
 ["inputs"], "all shape pairs offered in both orders, all placements",
 "Both orders go through different code (closed form, reversed closed form, or iteration with the roles exchanged) and are not compared by tests.",
 [S2 + "point2d.rs", S2 + "box2d/v_ball.rs", GJK + "mod.rs", "src/col/transform.rs"],
 [("impl_reverse_sdfv_common_rel", S2 + "point2d.rs"), ("DeltaTransform", "src/col/transform.rs")], ["collides", "penetrates", "distance_to", "sdfv"])
prop("C14", "World answers follow rigid motion and uniform scaling of the scene",
 "The world-space queries answer in world coordinates: moving the first collider by the returned vector makes the placed shapes touch. Moving or rotating both colliders together leaves the overlap decision and all lengths unchanged, and scaling the whole scene uniformly scales the lengths by the same factor, up to float rounding and the 1% of iterative queries.",
 ["inputs"], "all shape pairs, all pairs of placements, all common rigid motions and uniform scales",
 "Tests place the first shape at the origin without rotation almost everywhere, which hides a missing frame change.",
 [D2 + "penetrates.rs", D2 + "distance_to.rs", D2 + "sdfv.rs", D2 + "sdf.rs", T2 + "transform2d.rs", "src/col/transform.rs"],
 [("relative transform and mapping of the answer back to world", D2)], ["penetrates", "distance_to", "sdfv", "sdf", "collides"])
prop("C15", "The shape union answers like the shape it holds",
 "A shape union value (the built-in one or a user-defined one made with the exported macro) holding a ball, box or polygon has the same extreme points as that shape, and every query between two union values gives the same overlap decision as the same query between the shapes themselves, and vectors of the same length within the 1% of iterative queries. This holds for every combination of held shapes the concrete API supports, and constructors hold exactly the requested dimensions.",
 ["inputs"], "all shapes, all combinations, all placements",
 "Tests query one ball against itself through the union.",
 [S2 + "mod.rs"], [("shape_union! macro", S2 + "mod.rs"), ("Shape2d::ball / rect / poly", S2 + "mod.rs")], ["Shape2d", "extreme_point", "collides", "penetrates", "distance_to", "sdfv"])
prop("C16", "Queries on finite input never panic and never return NaN or infinity",
 "No query on finite shapes and placements panics, including zero-sized, extremely thin, tiny or large shapes, coincident, exactly touching and very distant placements, and every vector or scalar reported as the answer is finite. (Sizes and offsets are zero or between 1e-9 and 1e4; anything smaller than that underflows when squared.)",
 ["inputs"], "all shapes with sizes 0 or 1e-9 to 1e4 and placements with offsets 0 or 1e-9 to 1e6, all modes and call forms",
 "Degenerate and exactly touching inputs hit the branches of the iterative algorithm that ordinary inputs avoid; a test can only name those its author thought of.",
 [GJK + "mod.rs", GJK + "v.rs", S2 + "box2d/v_point.rs", S2 + "rounded_box2d/v_point.rs", S2 + "ball2d/v_point.rs"],
 [("simplex reduction and degenerate-direction handling", GJK + "mod.rs"), ("zero-length guards", S2)], ["all queries"])
prop("C17", "Every query finishes after a bounded amount of work",
 "Every 2D query between two convex shapes, including user-defined ones, finishes, and evaluates each shape's extreme point at most 256 times, whatever the input, so no placement can stall a frame. Over ordinary scenes of each pair of built-in shape kinds the average number of evaluations of a shape is far below that: at most 6 for the overlap query, 8 for the distance query of separated shapes, 32 for the penetration query of overlapping shapes and 22 for the signed-distance query, and half (0.7 times) the last two where neither shape (one shape) is a ball.",
 ["inputs"], "all finite shapes and placements, all query modes, user-defined convex shapes",
 "Cycling and slow convergence of iterative geometry show only for special inputs; tests would merely hang or pass.",
 [GJK + "v.rs", GJK + "mod.rs"], [("iteration limits", GJK + "v.rs"), ("convergence criterion", GJK + "mod.rs")], ["calls of extreme_point during a query"])
prop("C18", "Queries are silent, deterministic and free of side effects",
 "A query writes nothing to standard output or standard error, and its answer depends only on its arguments: repeating it later, after other queries, on another thread or concurrently with other threads gives bit-identical results. Enabling the logging feature or any log level does not change an answer.",
 ["inputs", "schedules", "configurations"], "all queries, all call histories, all interleavings of callers, logging on or off",
 "Tests run a query once under captured output; hidden state, output or logging that alters evaluation never shows there.",
 [GJK + "mod.rs", GJK + "v.rs", "src/lib.rs"], [("logging macros", "src/lib.rs"), ("absence of shared state", "src/")], ["stdout", "stderr", "all query results"])
prop("C19", "A tilemap is a total map from tile positions to tile values",
 "Reading any tile position returns the value most recently set there, or 0 if it was never set or was removed since; setting or removing a tile never affects any other position. This holds for every sequence of operations and all positions, negative ones and chunk borders included.",
 ["histories", "inputs"], "all operation sequences, all tile positions",
 "Only one tile is ever set by the tests and only the chunk count is compared.",
 [S2 + "tilemap.rs"], [("set_tile / remove_tile / get_tile", S2 + "tilemap.rs"), ("modular_decompose into chunk and local position", S2 + "tilemap.rs")],
 ["get_tile", "get_chunk"], [("Tilemap.chunks", "16x16 chunks by chunk position", S2 + "tilemap.rs")])
prop("C20", "Tilemap events tell exactly what happened to the chunks",
 "Setting a tile in a chunk that does not exist creates it and logs exactly one creation; setting or removing a tile in an existing chunk that stays logs exactly one change if and only if the tile's value changed; removing the last non-zero tile of a chunk, or any tile of an all-zero one, removes the chunk and logs exactly one removal. No other operation logs anything, so replaying the log from an empty map yields exactly the set of existing chunks at every moment.",
 ["histories"], "all sequences of set, remove and read operations",
 "No test looks at the event ledger.",
 [S2 + "tilemap.rs", "src/utils/publisher.rs"], [("events.notify calls", S2 + "tilemap.rs")], ["Tilemap.events", "get_chunk"],
 [("Tilemap.events", "ledger of chunk events", S2 + "tilemap.rs")])
prop("C21", "Tile, chunk and world coordinates convert consistently",
 "Every tile position belongs to exactly one 16x16 chunk: position = 16 * chunk + local with local in 0..16 on each axis, both conversions report the same chunk, and a chunk's cell at that local position holds the tile's value. A world position maps to the tile whose centre is nearest, tile to world to tile is the identity, and quantising a box at a position gives the rectangle from the tile of its lower corner to the tile of its upper corner.",
 ["inputs"], "all tile positions, world positions and boxes",
 "Tests use the tile (3, 2) only; negative positions and chunk borders are where truncating division or rounding goes wrong.",
 [S2 + "tilemap.rs"], [("modular_decompose", S2 + "tilemap.rs"), ("world_to_tile_pos / quantize", S2 + "tilemap.rs")],
 ["tile_to_chunk_and_local_pos", "tile_to_chunk_pos", "get_chunk", "world_to_tile_pos", "tile_to_world_pos", "quantize"])
prop("C22", "A saved tilemap loads back identically, and faults are reported",
 "Saving and loading (to a file, also over an older longer file) or serialising and deserialising a tilemap reproduces every tile and every existing chunk, with an empty event log, and further edits behave as on the original. The file is the one named, whatever its name; no other file is created, changed or removed, and maps saved to different files at the same time do not disturb each other. If the file cannot be created or fully written, saving returns an error; loading a missing file, or a file truncated at any byte, returns an error and never a map or a panic.",
 ["histories", "fault_sequences", "crash_points"], "all tilemaps, truncation at every byte, failing creation and failing writes",
 "Tests serialise one tile to a string and compare the number of chunks; file IO and its failures are untested.",
 [S2 + "tilemap.rs"], [("save / load", S2 + "tilemap.rs"), ("serde_as Vec<(_, _)> for chunks", S2 + "tilemap.rs")], ["save", "load", "serde_json round trip"])
prop("C23", "Tilemap contact and resolution act on exactly the solid tiles",
 "A point collides with a tilemap exactly when the tile nearest to it is non-zero. Resolving a ball or box leaves a position that overlaps no solid tile unchanged, and moves one that overlaps exactly one solid tile by the minimal displacement out of that tile (within 1%). With several overlapped tiles of a box, contacts are resolved one after the other, row by row, in ascending order along a non-negative movement direction and descending order along a negative one.",
 ["inputs", "configurations"], "all tile layouts, positions, sizes and movement directions",
 "The only collision test of the tilemap asserts nothing.",
 [S2 + "tilemap.rs", "src/utils/rect2.rs"], [("simple_resolve_ball / simple_resolve_box", S2 + "tilemap.rs"), ("for_tiles_in_rect", S2 + "tilemap.rs"), ("SdfvCommonRel2d<Point> for Tilemap", S2 + "tilemap.rs")],
 ["simple_resolve_ball", "simple_resolve_box", "collides_rel"])
prop("C24", "Rectangle iteration visits every cell exactly once in the stated order",
 "Iterating an integer rectangle visits every cell from min to max inclusive exactly once and no other, row by row, x ascending for east and descending for west, y ascending for north and descending for south; the boxed and direction-driven variants give the order selected by their flags or by the signs of the direction. A rectangle with max below min on an axis visits nothing, and padding moves every side outwards by the padding.",
 ["inputs"], "all rectangles, all iteration orders, all paddings",
 "There is no test of this type.",
 ["src/utils/rect2.rs"], [("iterate_*", "src/utils/rect2.rs"), ("Rect2i32::pad", "src/utils/rect2.rs")], ["iterate*", "pad"])
prop("C25", "Publishers deliver every event exactly once and in order",
 "A ledger holds every notified event exactly once in notification order, a hash-set ledger holds exactly the set of distinct notified events, and a callback publisher calls every subscriber attached at that time exactly once per event, in attachment order, with that event, before the notification returns. Subscribers attached later see later events only.",
 ["histories", "schedules"], "all sequences of attach and notify, publishers moved between or shared by threads",
 "There is no test of the publishers.",
 ["src/utils/publisher.rs"], [("Publisher::notify", "src/utils/publisher.rs"), ("CallbackPublisher::attach", "src/utils/publisher.rs")], ["events", "callbacks"],
 [("CallbackPublisher.subscribers", "callbacks in attachment order", "src/utils/publisher.rs")])
prop("C26", "Approximate equality and interpolation mean what they say",
 "Approximate equality of finite numbers or vectors accepts values whose difference is below the tolerance relative to their magnitude and rejects values whose difference is above it (absolute tolerance when a compared number is zero), is reflexive, gives the same answer in both orders away from the threshold, never accepts NaN, and uses a tolerance of 1e-6 by default. Interpolation returns its end points at 0 and 1 and is affine in between and beyond, and squaring multiplies a number by itself.",
 ["inputs"], "all finite numbers and vectors of magnitude up to 1e15, all tolerances",
 "The comparison is only used by tests on values that are equal; a comparison that accepts too much would make every such test vacuous.",
 ["src/utils/approx.rs", "src/lib.rs"], [("Approx", "src/utils/approx.rs"), ("Lerp / Square", "src/lib.rs")], ["approx_eq", "approx_eq_tolerance", "lerp", "square"])
prop("C27", "Bevy transforms act as the equivalent auburn placements",
 "A bevy transform used as a 2D placement acts on points and directions as its XY translation, its rotation about Z and its XY scale, and every 2D query with bevy transforms gives the answer of the equivalent 2D placement. Used as a 3D placement it scales, rotates, then translates, its un-apply and (for uniform scale) inverse undo it, composition chains placements, and conversion to and from the library's 3D transforms preserves the placement.",
 ["inputs", "configurations"], "all bevy transforms with positive uniform scale (any scale where not inverted or composed), all shape pairs",
 "One test converts a translation and one queries two boxes without rotation.",
 ["src/col/bevy_transform.rs", T2 + "bevy_transform.rs", "src/col3d/transformation3d/transform3d.rs", "src/col3d/transformation3d/isotropic3d.rs"],
 [("Transformation2d for Transform", T2 + "bevy_transform.rs"), ("Transformation3d for Transform", "src/col/bevy_transform.rs")], ["apply", "unapply", "inverse", "compose", "all 2D queries"])
prop("C28", "3D point queries against balls and boxes are exact",
 "For a 3D ball or box and a point, in both orders and in all call forms, placed by any translation and uniform positive scale (relative scale only where the point comes first), overlap is reported exactly when the point is inside, penetration and signed-distance vectors have the exact length and moving the first shape by them makes the shapes touch, and the scalar signed distance is exact. Extreme points of 3D points, balls and boxes are their farthest points, and growing a box to cover a point gives the smallest box containing both.",
 ["inputs"], "all sizes and placements, both orders",
 "The 3D tests are not built by the test suite (the feature is off) and name about ten placements, all in the z = 0 plane.",
 ["src/col3d/shape/box3d.rs", "src/col3d/shape/ball3d.rs", "src/col3d/default_impls.rs", "src/col3d/detection/collides.rs", "src/col3d/detection/penetrates.rs"],
 [("CollidesRel3d / PenetratesRel3d / SdfRel3d / SdfvRel3d", "src/col3d/shape/"), ("reverse impls", "src/col3d/default_impls.rs")],
 ["collides_rel", "penetrates_rel", "sdf_rel", "sdfv_rel", "collides", "collides_v2", "collides_v3", "penetrates", "extreme_point", "cover"])
prop("C29", "3D placements invert and compose correctly",
 "For every 3D placement type (identity, vector, translation, translation with scale, isotropic and full transform), un-apply undoes apply, the inverse undoes a placement with uniform scale, composition acts as applying the second and then the first, and the relative transform takes second-local coordinates into the first's frame, up to float rounding. The origin shortcuts equal applying and un-applying the zero point, and the default value of every type is the identity placement.",
 ["inputs"], "all placements with non-zero uniform scale, all points",
 "The 3D transforms are tested on a few points with one rotation each, and not built by the test suite.",
 ["src/col/mod.rs", "src/col3d/transformation3d/axis_transform3d.rs", "src/col3d/transformation3d/translate3d.rs", "src/col3d/transformation3d/isotropic3d.rs", "src/col3d/transformation3d/transform3d.rs"],
 [("Invertible / Composable impls", "src/col3d/transformation3d/")], ["apply", "unapply", "inverse", "compose", "delta_transform"])
prop("C30", "Optional features and build profiles never change an answer",
 "An optional cargo feature (serde, tilemap, 3d, bevy, logging) only adds functionality: the same query, placement, constructor, publisher, helper, tilemap or 3D operation on the same arguments gives the same result, bit for bit (the sign of a zero aside), with every set of features that offers it. The same holds for the build profile: an optimised build without debug assertions and overflow checks answers as an unoptimised build with them.",
 ["inputs", "configurations"], "all operations and arguments, all feature sets and build profiles",
 "Tests run in one configuration, unoptimised and with debug assertions; a feature gate or an assertion with a side effect changes only the builds users ship.",
 ["src/lib.rs", GJK + "mod.rs", GJK + "v.rs", S2 + "tilemap.rs", "src/utils/approx.rs", "src/col3d/shape/box3d.rs"],
 [("feature gates", "src/"), ("debug-only code", "src/")], ["all query results", "tile values", "events", "assert_approx_eq"])
prop("C31", "Tilemap operations are total, at any position",
 "Every tilemap operation (conversion, reading, setting, removing, quantising, point contact, resolution) answers for every tile position, the extremes of the coordinate range included, and for every world position however far away: it never panics and never fails to finish. A world position beyond the range of tile positions maps, per axis, to the nearest tile position there is, a point there touches the map exactly when that tile is non-zero, a box there is quantised to the tiles nearest to its corners, and resolution leaves a position clear of solid tiles bit-identical and gives a finite one otherwise.",
 ["inputs"], "all tile positions, all finite world positions (and no panic for infinite or undefined ones)",
 "Tests stay within a few tiles of the origin; conversions overflow and differences wrap only at the ends of the ranges.",
 [S2 + "tilemap.rs", "src/utils/rect2.rs"], [("world_to_tile_pos / quantize / simple_resolve_*", S2 + "tilemap.rs"), ("set_tile / get_tile / remove_tile", S2 + "tilemap.rs")],
 ["world_to_tile_pos", "tile_to_world_pos", "quantize", "get_tile", "set_tile", "remove_tile", "collides_rel", "simple_resolve_ball", "simple_resolve_box"])
prop("C32", "User-defined shapes and placements are answered like built-in ones",
 "A convex shape the user defines by its extreme points alone (polygonal, rounded, smooth, beside its own origin, chosen at run time), queried against another one or against any built-in shape, in either order, in every query mode and call form and with every placement, gets the right overlap decision, vectors whose length is the true distance or depth and which make the shapes touch, within 1% plus float rounding; placed in the world its extreme point is the farthest point of the placed shape. A placement type the user defines gives, under every pair of built-in shapes, the answers of the equivalent built-in placement.",
 ["inputs", "configurations"], "all convex shapes with consistent extreme points, all similarity placements (uniform positive scale)",
 "The tests use built-in shapes and placements only, so nothing fixes what the queries may ask of a user's implementation of the traits.",
 [D2 + "sdfv_minkowski.rs", GJK + "v.rs", GJK + "mod.rs", "src/col2d/collider2d.rs", D2 + "extreme_point.rs"],
 [("DefaultMinkowski / SdfvMinkowski2d", D2 + "sdfv_minkowski.rs"), ("ExtremePoint2d / ExtremePointT2d", D2 + "extreme_point.rs"), ("Transformation2d / Invertible / Composable", T2 + "mod.rs")],
 ["collides", "penetrates", "distance_to", "sdfv", "extreme_point", "extreme_point_t", "sdf"])
prop("C33", "Memory and open files are given back",
 "A query, placement operation or read of a tilemap leaves no memory allocated behind, however often it is repeated, and uses a bounded amount (under 64 KiB) while it runs. The memory a tilemap holds depends on the tiles and events it holds now and not on its history (removed chunks are given back), dropping a map or publisher frees everything it held, a publisher keeps no reference to an event after notifying its subscribers, and it holds each subscriber exactly once until it is dropped. Saving and loading a map, failing or not, close every file they opened, leave no other file behind and keep no memory.",
 ["inputs", "histories", "faults"], "all queries and operation histories, all failures of saving and loading",
 "Tests look at return values; a leak, a cache that only grows or a file left open shows in none of them and ends a long-running game.",
 [GJK + "mod.rs", GJK + "v.rs", S2 + "tilemap.rs", "src/utils/publisher.rs", "src/col2d/collider2d.rs"],
 [("EpaPoly2d / Simplex2d buffers", GJK + "mod.rs"), ("Tilemap::set_tile / remove_tile / save / load", S2 + "tilemap.rs"), ("CallbackPublisher / Ledger", "src/utils/publisher.rs")],
 ["allocator calls per thread", "/proc/self/fd", "reference counts of events and subscribers", "directory contents"])
prop("C34", "Safe code can never cause memory errors or data races",
 "No use of the public API, whatever the input (degenerate or undefined numbers, hostile user-defined shapes, keys and subscribers that are inconsistent or panic, saved maps that were tampered with) reads or writes outside an object, reads freed or uninitialised memory, breaks the language's aliasing rules or aborts the process. Threads that query shared shapes, placements and tilemaps at the same time, or use the publishers and maps behind locks of their own, never race on memory.",
 ["inputs", "interleavings"], "all sequences of public operations from safe code, all interleavings of threads",
 "Undefined behaviour need not change a result in a test run; only a tool that watches every access sees it, and races need an interleaving that plain tests do not force.",
 [GJK + "mod.rs", GJK + "v.rs", S2 + "poly2d/mod.rs", S2 + "tilemap.rs", "src/utils/publisher.rs", "src/utils/rect2.rs"],
 [("indexing and buffers", GJK + "mod.rs"), ("chunk addressing, loading", S2 + "tilemap.rs"), ("CallbackPublisher (Send + Sync callbacks)", "src/utils/publisher.rs")],
 ["reports of Miri and of the address, memory and thread sanitizers", "signals that end the process"])
prop("C35", "Equivalent descriptions of a scene get the same answers",
 "What a query answers depends on the scene and not on how it is written down. A polygon may list its vertices from any of them on, in either winding or in any order, repeat some or contain extra points that lie inside it or on its edges; a box may be given as a polygon of its corners or with its sides exchanged and a quarter turn; a turn or scale may be part of a shape or of its placement, or be applied to both shapes and the answer; a full turn may be added; a point or a ball may be turned in place; the same placement may be expressed by any placement type, and the shapes by themselves or in a union. In every supported pair and query mode all of these give the same overlap decision, and vectors (in the same frame) of the same length up to 1% plus float rounding, which resolve the one scene as well as the other; the distance vector is the same one.",
 ["inputs", "configurations"], "all supported pairs, all descriptions of a scene with uniform positive scale, polygons around the origin",
 "Tests write each scene down once; a shortcut that assumes a winding, a first vertex, distinct vertices, a unit scale or a normalised angle agrees with all of them.",
 [S2 + "poly2d/mod.rs", S2 + "box2d/mod.rs", GJK + "mod.rs", GJK + "v.rs", S2 + "mod.rs", T2 + "mod.rs"],
 [("Poly2d::extreme_point", S2 + "poly2d/mod.rs"), ("From<Box2d> for Poly2d", S2 + "poly2d/mod.rs"), ("Simplex2d / EpaPoly2d", GJK + "mod.rs"), ("Transformation2d", T2)],
 ["collides_rel", "penetrates_rel", "distance_to_rel", "sdfv_rel", "sdf_rel"])
prop("C36", "Shapes, placements and colliders are plain values",
 "Every constructor, conversion and builder of a shape, placement, collider, rectangle or event keeps exactly the numbers it was given, bit for bit and whatever they are (zeros of either sign, subnormal, infinite or undefined numbers included), in any order of building. A copy or clone holds the same numbers and answers the same, and changing one never shows in the other; using a value in queries or maps does not change it; a collider, its copies and conversions refer to the very shape and placement given. Two values are equal exactly when all their fields are. The debug text shows every field. A default shape has size zero or no vertices, a default placement leaves every point where it is, and a new map, chunk or ledger is empty.",
 ["inputs"], "all numbers, all orders of building",
 "Tests construct a few values from small round numbers and compare what is convenient; a lost sign, a swapped field, a shared buffer or an equality that forgets a field needs particular numbers to show.",
 ["src/col/ball.rs", S2 + "box2d/mod.rs", S2 + "poly2d/mod.rs", S2 + "mod.rs", "src/col2d/collider2d.rs", T2 + "transform2d.rs", T2 + "translate2d.rs", T2 + "axis_transform2d.rs", "src/col3d/shape/box3d.rs", "src/col3d/transformation3d/transform3d.rs", "src/utils/rect2.rs"],
 [("constructors, builders, From", "src/col*, " + T2), ("Clone / Copy / PartialEq / Debug / Default", "src/col*, src/utils"), ("Collider2d", "src/col2d/collider2d.rs")],
 ["new", "with_*", "from", "clone", "==", "{:?}", "default"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
