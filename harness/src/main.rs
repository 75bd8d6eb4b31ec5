mod builder;
mod c01;
mod c02;
mod c03;
mod c04;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod cli;
mod damage;
mod dump;
mod inject;
mod jolt;
mod model;
mod pack;
mod par;
mod short;
mod slowly;
mod util;
mod vast;
mod worker;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_recorder();
    listen();
    let prop = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = match a.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if prop == "gen-corpus" || prop == "fill-corpus" {
        c14::gen_corpus(&a[2], a[3].parse().unwrap(), prop == "fill-corpus");
        return;
    }
    if prop != "C09" && prop != "create-child" {
        short::on();
    }
    if prop == "damage-worker" {
        damage::worker(&a[2..]);
        return;
    }
    if prop == "conc-worker" {
        c07::worker(&a[2..]);
        return;
    }
    if prop == "sched-worker" {
        c08::worker(&a[2..]);
        return;
    }
    if prop == "create-child" {
        c09::child(&a[2..]);
    }
    let mut ctx = Ctx::new(prop, tier, seed);
    match prop {
        "C01" => c01::run(&mut ctx),
        "C02" => c02::run(&mut ctx),
        "C03" => c03::run(&mut ctx),
        "C04" => c04::run(&mut ctx),
        "C05" | "C06" => damage::run(&mut ctx),
        "C07" => c07::run(&mut ctx),
        "C08" => c08::run(&mut ctx),
        "C09" => c09::run(&mut ctx),
        "C10" => c10::run(&mut ctx),
        "C11" => c11::run(&mut ctx),
        "C12" => c12::run(&mut ctx),
        "C13" => c13::run(&mut ctx),
        "C14" => c14::run(&mut ctx),
        "C15" => c15::run(&mut ctx),
        "C16" => c16::run(&mut ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    let (r, w) = short::counts();
    if r + w > 0 {
        ctx.count("reads_done_in_part", r);
        ctx.count("writes_done_in_part", w);
    }
    let hung = ctx.hung;
    let code = ctx.finish();
    if hung {
        let _ = std::fs::remove_dir_all(scratch_root());
        std::process::exit(code);
    }
    let _ = std::fs::remove_dir_all(scratch_root());
    std::process::exit(code);
}
