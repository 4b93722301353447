mod asm;
mod checks;
mod dec;
mod elf;
mod emu;
mod fdt;
mod gen;
mod genprog;
mod lock;
mod machine;
mod model;
mod proc;
mod report;
mod rng;
mod syscalls;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "launch") {
        proc::launch(&args[2..]);
    }
    match args.get(1).map(|a| a.as_str()) {
        Some("child-syscalls") => std::process::exit(syscalls::child(&args[2..])),
        Some("child-watch") => std::process::exit(checks::res::child(&args[2..])),
        Some("child-exhaust") => std::process::exit(syscalls::exhaust(&args[2..])),
        _ => (),
    }
    report::take_stdio();
    emu::init_log();
    emu::install_panic_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).expect("property id");
            let all = checks::all();
            let c = all.iter().find(|c| c.id == id).expect("no check for this property");
            report::run_check(c)
        }
        Some("replay") => report::replay(args.get(2).expect("replay file"), &checks::all()),
        Some("list") => {
            for c in checks::all() {
                report::say(c.id);
            }
            0
        }
        _ => {
            report::say("usage: monitor check <property> | replay <file> | list");
            2
        }
    };
    report::cleanup();
    std::process::exit(code);
}
