//! Whole random programs against the reference machine, with different emphasis.

use super::drill::pick_machine;
use crate::gen::*;
use crate::report::*;

pub fn program(cx: &mut Ctx, o: Opts, steps: u64) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    let mut s = scene(&mut rig, &mut cx.rng, o);
    if !rig.start() {
        let d = rig.full_diff().unwrap_or_default();
        let k: String = d.split(':').next().unwrap_or("").into();
        cx.st.inconclusive(&format!("start state not accepted: {k}"));
        return Ok(());
    }
    let key = crate::rng::mix(cx.rng.clone().u64(), 0);
    let n = s.run(&mut rig, &mut cx.rng, steps)?;
    rig.finish()?;
    cx.st.add("program steps", n);
    cx.st.case(if n > 10 { Some(key) } else { None });
    cx.st.sample(|| format!("rv{} program of {n} steps ending in: {}", if rv64 { 64 } else { 32 }, rig.tail(6)));
    cx.put(rig);
    Ok(())
}

fn mixed(cx: &mut Ctx) -> Result<(), Violation> {
    program(cx, OPTS, 300)
}

/// Long, mostly trap-free runs.
fn calm(cx: &mut Ctx) -> Result<(), Violation> {
    program(cx, Opts { bad_pte: 0, wild: 0, devices: 0, pmp: 0, triggers: 0, ints: 1, steer: 16, ..OPTS }, 1500)
}

fn translated(cx: &mut Ctx) -> Result<(), Violation> {
    program(cx, Opts { translation: 16, modes: [3, 3, 1], ..OPTS }, 300)
}

pub fn trap_programs(cx: &mut Ctx) -> Result<(), Violation> {
    const M: Mix = &[
        (K::Alu, 4), (K::Load, 10), (K::Store, 10), (K::Amo, 4), (K::LrSc, 3), (K::Jump, 8), (K::Csr, 6),
        (K::Sys, 16), (K::Half, 4), (K::Word, 4), (K::C16, 8),
    ];
    program(cx, Opts { mix: M, ints: 8, translation: 10, ..OPTS }, 200)
}

pub fn trigger_programs(cx: &mut Ctx) -> Result<(), Violation> {
    program(cx, Opts { triggers: 16, wild: 0, devices: 0, translation: 6, ..OPTS }, 300)
}

fn csr_programs(cx: &mut Ctx) -> Result<(), Violation> {
    const M: Mix = &[(K::Csr, 40), (K::Alu, 4), (K::Sys, 3), (K::Branch, 2), (K::C16, 4)];
    program(cx, Opts { mix: M, translation: 3, pmp: 6, triggers: 4, ints: 3, modes: [1, 3, 8], steer: 14, ..OPTS }, 250)
}

fn csr_machine(cx: &mut Ctx) -> Result<(), Violation> {
    const M: Mix = &[(K::Csr, 40), (K::Alu, 2)];
    program(cx, Opts { mix: M, translation: 2, pmp: 4, triggers: 0, ints: 0, modes: [0, 0, 1], steer: 14, ..OPTS }, 250)
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        gens: vec![
            Gen { name: "M-mode CSR sequences", weight: 2, run: csr_machine },
            Gen { name: "CSR programs in all modes", weight: 1, run: csr_programs },
            Gen { name: "one CSR after another, all bits", weight: 2, run: super::directed::csr_bits },
            Gen { name: "switching C through misa", weight: 1, run: super::directed::misa_c },
        ],
        quick: 45000,
        thorough: 2_000_000,
        rule: "random programs of CSR instructions (all six forms, x0 and zero immediates included) with legal, reserved and random operands on every standard M/S CSR, PMP and trigger CSR, from all modes, with the whole CSR state compared after each instruction; plus runs that set and clear single bits of one CSR and read its views (sstatus/mstatus, sie/mie, sip/mip); distinct = distinct program or (CSR, operation, operand, view)",
        assumptions: &["of misa writes only those that switch C are judged (it stays on where the next instruction would be misaligned, nothing else moves, exception pcs read as IALIGN says); not judged: delegation of machine interrupts, reserved trap-vector modes, PMP W without R, odd pmpcfg on RV64, SEIP writes, unsupported trigger configurations; after a write of an unlisted cause code the cause register is only required to be stable"],
        must: &["program steps", "single-bit writes", "C kept for alignment", "exception pcs read", "returns with C off or on"],
    }
}

fn translation_programs(cx: &mut Ctx) -> Result<(), Violation> {
    const M: Mix = &[
        (K::Alu, 4), (K::Load, 20), (K::Store, 16), (K::Amo, 6), (K::LrSc, 6), (K::Jump, 8), (K::Csr, 3),
        (K::Sys, 3), (K::C16, 8),
    ];
    program(cx, Opts { mix: M, translation: 16, pmp: 2, triggers: 0, ints: 1, modes: [4, 4, 2], devices: 1, wild: 1, bad_pte: 8, ..OPTS }, 250)
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        gens: vec![
            Gen { name: "programs under translation", weight: 3, run: translation_programs },
            Gen { name: "one access through one mapping", weight: 3, run: super::directed::one_mapping },
            Gen { name: "the same pages while what decides changes", weight: 2, run: super::directed::revisited },
        ],
        quick: 160000,
        thorough: 3_000_000,
        rule: "random programs in S/U (and M with MPRV) under Sv32/Sv39 tables with 4K, mega and giga pages, spoiled entries, aliases, entries changed by the program itself, satp switches between two roots, SUM/MXR/MPP changes; plus single accesses (fetch, load, store, AMO, LR, SC) through one mapping with each flag combination, level, mode and position; the physical effect or the fault is compared with the reference walker; distinct by program or by (flags, level, access, mode, SUM, MXR, MPRV)",
        assumptions: &["Svade behaviour (A/D faults) as the property says", "not judged: reserved upper PTE bits, non-leaf entries with A, D or U, tables in the boot ROM"],
        must: &["program steps", "mapped accesses done", "page faults", "access faults", "revisits done", "revisits with a page fault"],
    }
}

fn pmp_programs(cx: &mut Ctx) -> Result<(), Violation> {
    const M: Mix = &[
        (K::Alu, 4), (K::Load, 18), (K::Store, 16), (K::Amo, 5), (K::LrSc, 5), (K::Jump, 10), (K::Csr, 6),
        (K::Sys, 3), (K::C16, 8),
    ];
    program(cx, Opts { mix: M, translation: 6, pmp: 16, triggers: 0, ints: 0, modes: [3, 3, 2], devices: 2, wild: 0, bad_pte: 1, ..OPTS }, 250)
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        gens: vec![
            Gen { name: "programs under PMP", weight: 2, run: pmp_programs },
            Gen { name: "accesses at region edges", weight: 3, run: super::directed::pmp_edges },
        ],
        quick: 40000,
        thorough: 3_000_000,
        rule: "random programs in all modes under random PMP configurations (OFF, TOR, NA4, NAPOT of many sizes, locked entries, all 16 entries), and single fetches, loads, stores, AMOs and page-table walks at every edge of the configured regions in every width and mode, and writes to locked entries; distinct by program or by (configuration, address, access, mode)",
        assumptions: &["an instruction fetch is checked per 16-bit parcel", "not judged: W without R"],
        must: &["program steps", "allowed accesses", "refused accesses", "walks refused", "writes to locked entries"],
    }
}

pub fn c28() -> Check {
    Check {
        id: "C28",
        gens: vec![
            Gen { name: "mixed", weight: 80, run: mixed },
            Gen { name: "long calm runs", weight: 20, run: calm },
            Gen { name: "under translation", weight: 40, run: translated },
            Gen { name: "whole programs in the emulator binary", weight: 1, run: super::e2e::whole_program },
        ],
        quick: 75000,
        thorough: 4_000_000,
        rule: "one case = one random program (instructions generated where the machine goes, operands steered at memory, page tables, devices, holes, CSRs), run in lock-step with the reference machine; registers, pc, privilege and CSRs are compared after every step, stored bytes after every store, PMP/trigger state after every CSR instruction, all touched memory at the end; non-trivial = more than 10 steps; distinct by generator state",
        assumptions: &["where the specification leaves behaviour open the reference accepts every allowed outcome or steps over the instruction (DESIGN.md lists them)"],
        must: &["program steps", "complete runs compared", "instruction addresses compared"],
    }
}
