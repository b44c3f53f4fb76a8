#![allow(invalid_runtime_symbol_definitions)]
#![allow(dead_code)]
#![allow(static_mut_refs)]
mod props;
mod rt;
mod runner;
mod scen;
mod sim;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // one address space layout for every run
    if std::env::var("SIM_NOASLR").is_err() {
        unsafe {
            let p = rt::sys::sc(libc::SYS_personality, 0xffffffff, 0, 0, 0, 0, 0);
            if p >= 0 && p & 0x0040000 == 0 && rt::sys::sc(libc::SYS_personality, p | 0x0040000, 0, 0, 0, 0, 0) >= 0 {
                std::env::set_var("SIM_NOASLR", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(std::env::current_exe().unwrap()).args(&a[1..]).exec();
                eprintln!("exec: {e}");
            }
        }
    }
    std::env::set_var("TZ", "UTC");
    std::env::set_var("RUST_BACKTRACE", "0");
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let prop = |id: &str| {
        props::find(id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let code = match arg(1) {
        "check" => runner::check(prop(arg(2)), &verif),
        "replay" => runner::replay(props::find, arg(2), arg(3) == "-q"),
        "determinism" => runner::determinism(prop(arg(2)), arg(3).parse().unwrap_or(200)),
        "run" => runner::run_verbose(prop(arg(2)), arg(3), arg(4).parse().expect("seed"), false),
        "index" => runner::run_verbose(prop(arg(2)), "", arg(3).parse().expect("index"), true),
        "list" => {
            for p in props::ALL {
                println!("{} {}", p.id, p.variants.iter().map(|v| v.0).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: starry-sim check ID | replay FILE [-q] | determinism ID N | run ID VARIANT SEED | index ID I | list");
            2
        }
    };
    std::process::exit(code)
}
