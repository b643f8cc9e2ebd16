//! Monitors that need auburn's 3d and bevy features. The framework, the reference geometry and the
//! 2D workloads are shared with ../harness.
#![allow(dead_code)]
#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/geo.rs"]
mod geo;
#[path = "../../harness/src/q2d.rs"]
mod q2d;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/rules.rs"]
mod rules;
#[path = "../../harness/src/silent.rs"]
mod silent;
#[path = "../../harness/src/tiles.rs"]
mod tiles;
#[path = "../../harness/src/x2d.rs"]
mod x2d;
mod bevy2d;
mod d3;
mod values;
use fw::Ctx;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("child-3d") { return silent::child(&bevy2d::silent_scene, &args[2..]); }
    let (prop, tier) = (args[1].clone(), args[2].clone());
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let replay = if args.len() > 5 { Some((args[3].parse().unwrap(), args[4].clone(), args[5].parse().unwrap())) } else { None };
    let ctx = Ctx::new(&prop, &tier, &root, replay);
    match prop.as_str() {
        "C27" => bevy2d::c27(&ctx),
        "C18" => silent::check(&ctx, &bevy2d::silent_scene, "child-3d", std::env::var("VERIF_LOG_BIN").ok().as_deref(), ctx.scale(30_000)),
        "C28" => d3::c28(&ctx),
        "C36" => values::c36(&ctx),
        "C29" => d3::c29(&ctx),
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    }
    std::process::exit(ctx.finish(&rules::rule(&prop), serde_json::json!({}), rules::assumptions(&prop)));
}
