//! Deterministic simulation of ftml with fault injection. See DESIGN.md.

mod env;
mod gen;
mod html;
mod ops;
mod props;
mod rng;
mod runner;
mod sched;
mod site;
mod trace;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: trace::SimAlloc = trace::SimAlloc;

/// Runs this program again with a fixed address space layout.
fn fix_addresses() {
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now >= 0 && now & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("FTMLSIM_FIXED").is_none() {
            if libc::personality((now | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let exe = std::env::current_exe().unwrap();
                let err = std::process::Command::new(exe)
                    .args(std::env::args_os().skip(1))
                    .env("FTMLSIM_FIXED", "1")
                    .exec();
                eprintln!("could not run again: {err}");
            }
        }
    }
}

fn main() {
    fix_addresses();
    trace::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let mut root = PathBuf::from(".");
    let mut cases = None;
    let mut workers = runner::Options::workers_default();
    let mut keep_going = false;
    let mut file = None;
    let mut show = None;
    let mut pos = vec![];
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().expect("option needs a value");
        match a.as_str() {
            "--tier" => tier = val(),
            "--seed" => seed = val().parse().unwrap(),
            "--root" => root = PathBuf::from(val()),
            "--cases" => cases = Some(val().parse().unwrap()),
            "--workers" => workers = val().parse().unwrap(),
            "--replay" => file = Some(PathBuf::from(val())),
            "--show" => show = Some(val().parse::<u64>().unwrap()),
            "--keep-going" => keep_going = true,
            _ => pos.push(a),
        }
    }
    let id = pos.first().cloned().unwrap_or_default();
    let all = props::all();
    let Some(prop) = all.iter().find(|p| p.id() == id) else {
        eprintln!("usage: ftmlsim <property> [--tier quick|thorough] [--replay FILE]");
        std::process::exit(2);
    };
    let prop = prop.as_ref();
    let opt = runner::Options {
        tier,
        seed,
        root,
        cases,
        workers,
        keep_going,
    };
    if let Some(i) = show {
        let case = runner::make_case(prop, opt.seed, i);
        println!("{}", serde_json::to_string_pretty(&case).unwrap());
        return;
    }
    let code = match file {
        Some(f) => runner::replay(prop, &f),
        None => runner::check(prop, &opt),
    };
    std::process::exit(code);
}
