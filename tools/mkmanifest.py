#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
N = {
 "C01": ("runtime monitor: f64 reference placement and round-trip invariants", "every mapped point of millions of random placements is compared with an f64 reference; sampling, not proof"),
 "C02": ("runtime monitor: f64 reference placement, algebraic laws", "composition, association, neutrality and relative transforms on random triples; sampling"),
 "C03": ("runtime monitor: f64 reference rotation", "angles, products, chains, quaternions and directions on random inputs; sampling"),
 "C04": ("runtime monitor: membership and maximality oracle over exact shapes", "every returned extreme point is decided against the exact shape; uniform scale only"),
 "C05": ("runtime monitor: exact model of the smallest centred box", "boxes compared exactly over random shapes and histories of covering"),
 "C06": ("runtime monitor: f64 reference polygon and validity decision", "constructors exact up to rounding; validity clear of rounding"),
 "C07": ("runtime monitor: independent exact signed-distance oracle", "closed-form pairs, all orders and modes, over adversarial and random placements"),
 "C08": ("runtime monitor: independent exact signed-distance oracle on overlap flags", "all iterative pairs and modes; scenes within rounding of touching are undecided"),
 "C09": ("runtime monitor: independent exact distance oracle", "all iterative pairs; 1% plus rounding"),
 "C10": ("runtime monitor: independent exact penetration-depth oracle", "all iterative pairs; 1% plus rounding"),
 "C11": ("runtime monitor: answers applied and re-measured by an exact oracle", "all pairs, all vector-valued queries; 1% plus rounding"),
 "C12": ("runtime monitor: online cross-checker over all modes and call forms", "all modes and call forms of one scene compared with each other and with the exact relation"),
 "C13": ("runtime monitor: metamorphic (swap) oracle plus exact re-measurement", "all pairs offered in both orders"),
 "C14": ("runtime monitor: metamorphic (common motion, scaling) oracle plus exact re-measurement", "two placed shapes; rotations, translations, uniform scales"),
 "C15": ("runtime monitor: differential oracle union against held shape", "every combination, built-in and user-defined unions"),
 "C16": ("runtime monitor: panic and finiteness monitors with debug assertions and overflow checks compiled in", "degenerate and hostile scenes in all modes and call forms"),
 "C17": ("runtime monitor: counting instrumented shapes, processor-time watchdog", "hard limit per query and average over ordinary scenes, incl. hostile support functions"),
 "C18": ("runtime monitor: output capture, digests compared across histories, threads, processes and logging builds", "2D and 3D queries; interleavings are those the scheduler produced"),
 "C19": ("runtime monitor: reference-model checker over operation histories", "total-map model, every position touched read back"),
 "C20": ("runtime monitor: online event-log checker against a chunk model", "every operation's events predicted and compared"),
 "C21": ("runtime monitor: exact integer reference for coordinate conversion", "borders, negative and extreme positions; ties undecided"),
 "C22": ("runtime monitor: fault injection (truncation at every byte, failing creation and writes) with a reference model", "round trips compared tile by tile; faults provoked and their reports observed"),
 "C23": ("runtime monitor: exact contact oracle and order-sensitive reference resolution", "random layouts; ties and near-touching undecided"),
 "C24": ("runtime monitor: recorded visit sequences against the stated order", "all iteration variants over random and degenerate rectangles"),
 "C25": ("runtime monitor: exactly-once/in-order checker over recorded deliveries, incl. concurrent producers", "publisher behind a lock between threads; injected delays; interleavings counted"),
 "C26": ("runtime monitor: f64 reference decision clear of the threshold", "magnitudes 1e-15 to 1e15, all argument orders, NaN"),
 "C27": ("runtime monitor: f64 reference placement and exact signed-distance oracle with bevy transforms", "real bevy transform, math and ecs crates; all 2D queries"),
 "C28": ("runtime monitor: exact 3D signed-distance oracle", "balls, boxes and points in every region, all orders and call forms"),
 "C30": ("runtime monitor: differential oracle over builds with different features and profiles", "ten builds answer the same scenes, every answer compared bit for bit; other feature sets are not built"),
 "C31": ("runtime monitor: reference model and exact nearest-tile oracle over positions of every magnitude, panic and work monitors", "any finite f32 position and any tile position; ties undecided"),
 "C32": ("runtime monitor: independent exact signed-distance oracle on user-defined shapes and placements", "polygonal, rounded and smooth shapes, two user-defined placement types; 1% plus rounding"),
 "C33": ("runtime monitor: counting allocator, open-file and reference-count observers", "memory per thread before and after each operation, files and subscribers at each step; sampling of inputs and histories"),
 "C34": ("sanitizers and UB interpreter: Miri (tree borrows), AddressSanitizer, MemorySanitizer, ThreadSanitizer", "the real code in generated, hostile and concurrent workloads under all four tools; interleavings counted; sampling"),
 "C35": ("runtime monitor: metamorphic comparison of equivalent descriptions of a scene, against each other and the exact signed distance", "every supported pair, about 18 million descriptions per quick run; 1% plus rounding; sampling"),
 "C36": ("runtime monitor: bit-for-bit comparison of values, copies, equality, debug text and defaults with what was given", "2D and 3D values from any bit pattern; sampling"),
 "C29": ("runtime monitor: f64 reference 3D placement, algebraic laws", "every 3D placement type; sampling"),
}
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
           "technique": t, "level": "exploration", "level_note": n} for i, (t, n) in sorted(N.items())]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the monitors observe the public API of the real crate (features serde, tilemap, logging, 3d, bevy) through instrumented shapes, event logs, files and captured output", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "All checks build /repo's current tree into /verif/harness*/target*, /verif/variants/target* and /verif/ub/target* and run it. Known findings and fixes: known-findings.txt."}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
assert ids == sorted(N), (ids, sorted(N))
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
