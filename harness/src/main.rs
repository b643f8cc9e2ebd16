mod forms;
mod fw;
mod gen;
mod geo;
mod held;
mod q2d;
mod rng;
mod rules;
mod silent;
mod tiles;
mod tr2d;
mod user;
mod util;
mod x2d;
use fw::Ctx;

#[global_allocator]
static ALLOCATOR: held::Counting = held::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("child-limited-save") {
        tiles::child_limited_save(args[2].parse().unwrap(), &args[3]);
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("child-2d") { return silent::child(&x2d::silent_scene, &args[2..]); }
    let (prop, tier) = (args[1].clone(), args[2].clone());
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let replay = if args.len() > 5 { Some((args[3].parse().unwrap(), args[4].clone(), args[5].parse().unwrap())) } else { None };
    let ctx = Ctx::new(&prop, &tier, &root, replay);
    match prop.as_str() {
        "C01" => tr2d::c01(&ctx),
        "C02" => tr2d::c02(&ctx),
        "C03" => tr2d::c03(&ctx),
        "C04" => tr2d::c04(&ctx),
        "C05" => tr2d::c05(&ctx),
        "C06" => tr2d::c06(&ctx),
        "C07" => q2d::closed_form(&ctx),
        "C08" => q2d::iterative_pairs(&ctx, q2d::Aspect::Flags),
        "C09" => q2d::iterative_pairs(&ctx, q2d::Aspect::Distance),
        "C10" => q2d::iterative_pairs(&ctx, q2d::Aspect::Penetration),
        "C11" => q2d::iterative_pairs(&ctx, q2d::Aspect::Touch),
        "C12" => x2d::c12(&ctx),
        "C13" => x2d::c13(&ctx),
        "C14" => x2d::c14(&ctx),
        "C15" => x2d::c15(&ctx),
        "C16" => x2d::c16(&ctx),
        "C17" => x2d::c17(&ctx),
        "C18" => silent::check(&ctx, &x2d::silent_scene, "child-2d", std::env::var("VERIF_LOG_BIN").ok().as_deref(), ctx.scale(100_000)),
        "C19" => tiles::c19(&ctx),
        "C20" => tiles::c20(&ctx),
        "C21" => tiles::c21(&ctx),
        "C22" => tiles::c22(&ctx),
        "C23" => tiles::c23(&ctx),
        "C24" => tiles::c24(&ctx),
        "C25" => util::c25(&ctx),
        "C26" => util::c26(&ctx),
        "C31" => tiles::c31(&ctx),
        "C32" => user::c32(&ctx),
        "C35" => forms::c35(&ctx),
        "C33" => held::c33(&ctx),
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    }
    // the 3D part of C18 ran before this program and left its evidence
    let part = std::env::var("VERIF_PART_EVIDENCE").ok().and_then(|f| std::fs::read_to_string(f).ok()).and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
    let extra = match part { Some(p) => serde_json::json!({"three_dimensional_part": p}), None => serde_json::json!({}) };
    std::process::exit(ctx.finish(&rules::rule(&prop), extra, rules::assumptions(&prop)));
}
