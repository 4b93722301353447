//! C34: threads, under ThreadSanitizer.

use crate::proc::{self, tsan};
use crate::report::*;

use super::{e2e, host};

/// The emulator with input coming in, as in C20, watched by the sanitizer.
fn watched(cx: &mut Ctx, what: &'static str, f: fn(&mut Ctx) -> Result<(), Violation>) -> Result<(), Violation> {
    let reports = proc::dir("tsan");
    tsan(Some(&reports));
    let res = f(cx);
    tsan(None);
    let text = host::reports(&reports, "tsan.");
    proc::remove(&reports);
    if let Some(v) = host::sanitized("ThreadSanitizer", &text, what) {
        return v;
    }
    cx.st.count("runs of the binary watched");
    res
}

fn several(cx: &mut Ctx) -> Result<(), Violation> {
    let s = cx.rng.u64();
    let n = if cx.thorough { 40 } else { 15 };
    host::child_of(cx, &host::built("RACES_BIN"), "races", &[s.to_string(), n.to_string()])
}

pub fn c34() -> Check {
    Check {
        id: "C34",
        gens: vec![
            Gen { name: "several emulators in one process", weight: 1, run: several },
            Gen { name: "echo through the UART", weight: 4, run: |cx| watched(cx, "echo", e2e::uart_bytes) },
            Gen { name: "dialogues over the UART", weight: 2, run: |cx| watched(cx, "dialogue", e2e::dialogue) },
        ],
        quick: 120,
        thorough: 8000,
        rule: "one program run among other emulators of the same process (in threads, or in turns) and alone, both final states compared; or one run of the binary with input arriving while the guest works; all of it, standard library included, compiled with ThreadSanitizer",
        assumptions: &[
            "ThreadSanitizer sees every access of the compiled Rust code and the synchronisation of the standard library, built with it; it reports races of executions that took place",
            "standard output and standard input are the process's: what several emulators write there is not compared, and they get no input",
        ],
        must: &["programs run among others and alone", "emulators in threads", "emulators taking turns", "runs of the binary watched", "bytes echoed", "prompts answered"],
    }
}
