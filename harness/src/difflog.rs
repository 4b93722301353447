//! The emulator with its instruction counter set forward, so that the log level that is silent for
//! the first hundreds of millions of instructions is reached: `difflog LEVEL AHEAD FILE`, where the
//! counter starts AHEAD instructions before the point where logging begins.

use carron::cmdline::{Arguments, ExeOption};
use carron::log::{LogLv, INST_COUNT, LOG_ENABLE_INST, LOG_LEVEL};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ahead: u64 = a[2].parse().unwrap();
    println!("\nIn file {}", a[3]);
    LOG_LEVEL.get_or_init(|| if a[1] == "diff" { LogLv::Diff } else { LogLv::NoLog });
    *INST_COUNT.lock().unwrap() = LOG_ENABLE_INST - ahead;
    let loader = carron::elfload::ElfLoader::try_new(&a[3]).unwrap();
    println!("elfcheck: OK\n");
    let args = Arguments {
        filename: a[3].clone(),
        exe_option: ExeOption::OPT_DEFAULT,
        pk_path: None,
        kernel_path: None,
        initrd_path: None,
        init_pc: None,
        main_args: a[3..].to_vec(),
    };
    carron::Emulator::new(loader, args).emulation();
}
