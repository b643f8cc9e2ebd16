//! How the cases of each property are made, and what makes one non-trivial (for the evidence files).
const SHAPES: &str = "Shapes: balls, boxes, convex polygons with 3 to 40, sometimes up to 280, vertices around the origin (either winding), points and unions; six dimension profiles (generic, lattice-aligned, high aspect, round, small, large), 15% of them in a unit of length between 1e-9 and 1e9; placements: generic, aligned to special angles, grazing (a chosen gap or depth along a chosen direction), coincident, far. ";
pub fn assumptions(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" | "C02" | "C03" | "C27" | "C29" => &["the rounding slack is a small multiple of f32 epsilon times the coordinates involved; the reference works in f64"],
        "C15" => &["placements with uniform positive scale; polygons queried against shapes are convex and contain the origin"],
        "C04" | "C05" | "C06" => &["placements with uniform positive scale; polygons are convex and contain the origin"],
        "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C35" => &["placements with uniform positive scale; polygons are convex and contain the origin", "situations within rounding of exactly touching are counted as undecided", "the reference is an independent f64 convex geometry (Minkowski difference as an explicit polygon plus a radius)"],
        "C16" => &["non-zero dimensions and offsets of at least 1e-9 (smaller ones underflow when squared), at most 1e4", "a panic is observed as an unwinding panic; debug assertions and overflow checks are compiled in"],
        "C17" => &["work is counted as evaluations of extreme points of instrumented user-defined shapes and of closed-form calls; a case that uses 60 s of processor time counts as endless"],
        "C18" => &["answers are compared bit by bit as digests", "interleavings are those the scheduler produced; switches between callers are counted"],
        "C32" => &["extreme points of a user-defined shape are consistent and accurate to f32 rounding", "ovals are represented in the reference by 256-gons, whose error is added to the rounding slack", "situations within rounding of exactly touching are counted as undecided"],
        "C30" => &["NaNs are one value and so are the zeros; a scene that panics in both builds is undecided (C16)", "the feature sets and profiles compared are those listed under builds"],
        "C33" => &["memory is what the global allocator hands out on the thread that runs the operation", "the first run of an operation may set up something lasting; every later one may not"],
        "C34" => &["the tools see what was executed: the scenes and interleavings counted", "a panic is not a memory error (see C16, C22, C31)", "leaks are C33's"],
        "C22" => &["crash points are modelled as truncated files, full devices as a file size limit and /dev/full"],
        "C25" => &["interleavings of producers are those the scheduler produced under injected delays; the publisher itself is shared behind a lock, as its API requires"],
        _ => &[],
    }
}
pub fn rule(prop: &str) -> String {
    let t = match prop {
        "C01" => "A random 2D placement of every type (identity, vector, translation, translation with scale, full; uniform, negative and per-axis scale) and random points, near and far. Non-trivial: the apply/unapply/inverse/origin monitors compared the mapped points with an f64 reference. Distinct by the bits of the placement.",
        "C02" => "Random pairs and triples of placements of one type and random points, and random builder/constructor sequences of Transform2d. Non-trivial: composition, association, neutrality and relative transform were compared with the f64 reference on every point. Distinct by the bits of the placements.",
        "C03" => "Random angles (special and many turns), rotor products and long chains, random unit quaternions (about Z, general, half-turns) and placements of every type mapping directions. Non-trivial: the turned vectors were compared with the f64 reference. Distinct by the bits of the inputs.",
        "C04" => "Random shape (also polygons of many vertices, listed in any order, degenerate, or beside the origin), placement and direction (random, axis aligned, edge normals, tiny and huge lengths), and pairs of shapes for the Minkowski difference. Non-trivial: membership and maximality of the returned point were decided against the exact shape. Distinct by the bits of shape and direction.",
        "C05" => "Random shapes for bounding boxes, random sequences of covered points (outside, inside, on the border, negative zero) with an exact model of the box. Non-trivial: the resulting box was compared. Distinct by the bits of shape or sequence.",
        "C06" => "Side counts 1..=300 (and sometimes up to 20,000) with random radii for both constructors; random boxes and vertex lists; random vertex lists of up to 300 vertices, valid and damaged anywhere, in any unit of length, for the strict check with an f64 decision. Non-trivial: the vertices were compared, or the check was decided clear of rounding. Distinct by the bits of the vertices.",
        "C07" => "Every closed-form pair in every order and call mode. Non-trivial: clear of touching, so flags, lengths and residual gap were all decided. Distinct by the bits of the scene.",
        "C08" => "Every pair handled by the iterative algorithm (raw pairs and union representations), all four modes. Non-trivial: the exact signed distance is clear of zero, so the reported flags were decided. Distinct by the bits of the scene.",
        "C09" => "As C08; separated scenes only. Non-trivial: the lengths of the distance and signed-distance vectors were compared with the exact distance. Distinct by the bits of the scene.",
        "C10" => "As C08; overlapping scenes only. Non-trivial: the lengths of the penetration and signed-distance vectors were compared with the exact depth. Distinct by the bits of the scene.",
        "C11" => "As C08; the returned vector is applied to the first shape and the exact signed distance measured again. Non-trivial: the scene is clear of touching. Distinct by the bits of the scene.",
        "C12" => "Every pair and transformation type; all modes of one scene and all call forms are evaluated and compared with each other. Non-trivial: clear of touching. Distinct by the bits of the scene.",
        "C13" => "Every pair offered in both orders; both answers are compared and the swapped one applied. Non-trivial: clear of touching. Distinct by the bits of the scene.",
        "C14" => "Two placed shapes, a common rigid motion and a common uniform scale; world answers before and after are compared with the exact ones. Non-trivial: clear of touching. Distinct by the bits of the scene.",
        "C15" => "Extreme points of every held shape, polygons beside the origin included; every combination of held shapes, in the built-in union and in a user-defined one (with a user-defined capsule); the answers are compared with those of the concrete shapes and the exact ones. Non-trivial: extreme points compared and the scene clear of touching. Distinct by the bits of the scene.",
        "C16" => "Degenerate scenes (zero-sized, needle, tiny, huge, repeated or collinear vertices, coincident, exactly touching, nested, very distant) and ordinary ones, in all modes and call forms. Non-trivial: every answer was inspected for finiteness and no panic was seen. Distinct by the bits of the scene.",
        "C17" => "Scenes as in C08 and C16 with shapes that count evaluations of their extreme point, user-defined smooth and polygonal shapes, and hostile (noisy, inconsistent) support functions. Non-trivial: at least one counted evaluation. Distinct by the bits of the scene.",
        "C18" => "Random 2D and 3D scenes, every query on each; digests of the answers are compared between repetitions, orders, concurrent callers, child processes (some living through up to a million other scenes) and logging builds at every level, and the children's stdout and stderr are captured. Non-trivial: at least two runs of the scene compared. Distinct by digest or by observed interleaving.",
        "C19" => "Random histories of set/remove/read (fresh, dense, border, far and negative positions, values incl. 0 and the extremes) against a total-map model, with periodic full read-back; maps of up to 20,000 chunks and nearly full chunks. Non-trivial: at least one operation changed the map and positions were read back. Distinct by the history.",
        "C20" => "As C19 with the event log drained after every operation and compared with a chunk model. Non-trivial: at least one event was predicted and compared. Distinct by the history.",
        "C21" => "Random tile positions (around chunk borders, negative, extremes), world positions (around half-integers) and boxes. Non-trivial: the conversion was decided clear of ties. Distinct by the bits of the input.",
        "C22" => "Random maps saved and loaded (fresh path, over a longer file), serialised, edited afterwards; files truncated at every byte (large maps of thousands of chunks at block borders and at random); missing, directory, unwritable and full targets. Several maps under unusual names among other files, also at the same time; every other file found untouched. Non-trivial: the loaded map was compared tile by tile, or the fault was provoked and its report observed. Distinct by the contents.",
        "C23" => "Random tile layouts, positions around tiles and their corners, sizes and movement directions. Non-trivial: contact or resolution was decided clear of ties. Distinct by the bits of the scene.",
        "C24" => "Random rectangles (also empty, single-cell, large, negative), orders, directions and paddings; the visited sequence is recorded and compared. Non-trivial: at least one cell was to be visited. Distinct by the rectangle and order.",
        "C25" => "Random histories of attach and notify on every publisher type, one thread and several (behind a lock, with injected delays and moves between threads), some with hundreds of thousands of events or thousands of subscribers, over many kinds of event (numbers, strings, boxed and zero-sized values); the delivered events are recorded and compared with the predicted ones. Non-trivial: at least one event delivered. Distinct by the history or the observed interleaving.",
        "C26" => "Random pairs around the tolerance threshold, equal, opposite, zero, NaN, infinite and overflowing values, magnitudes 1e-36 to 1e36; interpolation and squares against f64; the assertion macro fails exactly when the comparison does. Non-trivial: clear of the threshold. Distinct by the bits of the inputs.",
        "C27" => "Random bevy transforms (rotations about Z, general, half-turns; positive uniform and per-axis scale) as 2D and 3D placements, and every 2D pair queried with them. Non-trivial: compared with the f64 reference clear of touching. Distinct by the bits of the inputs.",
        "C28" => "Random 3D balls, boxes and points in every region around the shape, both orders, every call form and transformation type; extreme points and covering. Non-trivial: clear of touching, or the point or box compared. Distinct by the bits of the inputs.",
        "C30" => "Random scenes: 2D queries in every call form (ordinary and degenerate), placements, constructors, bounding boxes, helpers and publishers in every build; tilemap histories and 3D scenes in the builds that offer them. Each build answers in a process of its own; all numbers of a scene are compared bit for bit with the reference build. Non-trivial: the scene was compared with at least one other build. Distinct by the answers.",
        "C31" => "Random world positions of every magnitude (everyday ones, around powers of two and the ends of the range of tiles, up to the largest f32, any bit pattern; infinite and undefined ones apart) and random tile positions, mapped, edited, read, touched, quantised and resolved. Non-trivial: the mapped tile, the contact before and after each edit, the corners or the resolved position were compared. Distinct by the bits of the input.",
        "C32" => "Random user-defined shapes (hulls of points in any order with or without radius, segments, capsules, discs, ovals; half of them beside their origin; some behind a trait object) against each other and every built-in shape in both orders; grazing, deep and far placements of every type; and two user-defined placement types under every pair of built-in shapes. Non-trivial: clear of touching, so that flags, lengths and the residual after moving were decided against the exact signed distance. Distinct by the bits of the scene.",
        "C29" => "Random 3D placements of every type and random points; triples for composition. Non-trivial: the mapped points were compared with the f64 reference. Distinct by the bits of the inputs.",
        "C33" => "Random queries (ordinary and degenerate) and scenes, each run twice with the second run measured; runs of 15,000 scenes; tilemap histories compared with a fresh map of the same contents and measured until dropped; large maps grown and shrunk; publishers with counted events and subscribers; saving and loading with truncated, missing, unwritable and full targets. Non-trivial: the allocator's books (and files or counters) were compared. Distinct by the bits of the input or history.",
        "C35" => "Every supported pair; each scene is described in up to three other ways: polygons listed from another vertex, reversed, in any order, with repeated vertices or points inside; boxes as polygons; turn, scale or symmetry of a shape moved between shape and placement; the frame turned or scaled; another placement type or representation. Non-trivial: the answers of both descriptions were compared with each other and with the exact ones. Distinct by the bits of the scene.",
        "C36" => "Random numbers (everyday ones, zeros, extremes, infinite and undefined ones, any bit pattern) given to every constructor, conversion and builder of the 2D and 3D shapes, placements, colliders, rectangles, maps and ledgers. Non-trivial: what the value holds, equality, its copies, its debug text and its defaults were compared with the numbers given. Distinct by the bits of the numbers.",
        "C34" => "A case is a process of many scenes run under one tool: 2D queries (ordinary and degenerate), tilemap histories, placements, shapes and helpers, 3D queries, hostile uses (empty polygons, undefined numbers, inconsistent or panicking user code, tampered saved maps) and several threads sharing values. Non-trivial: the process ran to its end under the tool or the tool reported. Distinct by tool, group, digest of the answers and interleavings.",
        _ => "",
    };
    let shapes = matches!(prop, "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C35");
    format!("{}{t}", if shapes { SHAPES } else { "" })
}
