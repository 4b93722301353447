#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
HOOK="carron_verif: CSR read/write, privilege and pc accessors on Cpu (src/cpu/verif.rs)"
EX="src/cpu/execution/inst_32/"
p("C01","Integer computation writes exactly the value RISC-V defines",
"Executing any RV32I/RV64I computational instruction (LUI, AUIPC, register-register and register-immediate arithmetic, logic, compare and shift, and the RV64 W forms) writes to rd exactly the value the RISC-V specification defines for the selected XLEN, for every operand value, immediate and choice of registers, and moves pc to the next instruction. Register x0 always reads as zero, and every other register, CSR and byte of memory is unchanged.",
["inputs","programs"],"All computational opcodes x all register choices (including rd=rs, x0) x all operand and immediate values, on both RV32 and RV64, alone and inside instruction sequences.",
"The suite executes one C.LI; values at sign, width and shift-amount boundaries are a product space no handful of cases covers.",
[EX+"base_i.rs","src/cpu/reg.rs","src/cpu/decode/inst_32/base_i.rs"],[("base integer execution",EX+"base_i.rs exec"),("register file with x0 and XLEN truncation","src/cpu/reg.rs")],["Cpu::exec_one_cycle","Cpu::regs","Cpu::pc"],HOOK)
p("C02","Jumps and branches go exactly where RISC-V says, with the right link",
"JAL, JALR and every conditional branch set pc to the target the specification defines (branch taken exactly when its comparison holds at the selected XLEN, JALR target bit 0 cleared, 32-bit wrap on RV32) and otherwise to pc+4, including when the target is the instruction itself. JAL and JALR write pc+4 to rd, JALR using the old rs1 when rd=rs1, and nothing else changes.",
["inputs","programs"],"All control-transfer opcodes x operand values x offsets (0, +-2, extremes) x register choices x pc values, RV32 and RV64.",
"No test executes a branch or a jump at all.",
[EX+"base_i.rs","src/cpu/execution/inst_32.rs","src/cpu/decode/inst_32/base_i.rs"],[("branch execution",EX+"base_i.rs exec"),("pc advance","src/cpu/execution/inst_32.rs exe_inst")],["Cpu::exec_one_cycle","Cpu::pc"],HOOK)
p("C03","Multiply and divide match the M extension for every operand pair",
"MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU and the RV64 W forms write exactly the value the M extension defines, for every operand pair, including division by zero, signed overflow and operands whose upper half is non-zero. They never trap, never stop the emulator and change only rd and pc.",
["inputs"],"All M opcodes x all operand pairs (biased to 0, +-1, min, max, values with zero low halves) x register choices, RV32 and RV64.",
"No test executes an M instruction; the special cases live at isolated points of a 2^128 input space.",
[EX+"m_extension.rs"],[("M execution",EX+"m_extension.rs exec")],["Cpu::exec_one_cycle","Cpu::regs"],HOOK)
p("C04","Each compressed instruction acts exactly like the instruction it expands to",
"Every valid 16-bit C-extension instruction (RV32C or RV64C integer subset, C.EBREAK included) has exactly the architectural effect of the 32-bit instruction the specification expands it to, traps and their reported values included. The only differences are that pc advances by 2 and that links are pc+2.",
["inputs","programs"],"All 65536 halfwords x both XLENs (exhaustive over encodings) x sampled register and memory states.",
"Tests decode six compressed words without checking the fields (the match arms bind instead of compare) and execute one.",
["src/cpu/decode/inst_16/c_extension.rs","src/cpu/execution/inst_16/c_extension.rs","src/cpu/execution/inst_16.rs"],[("C decode","src/cpu/decode/inst_16/c_extension.rs"),("C execution","src/cpu/execution/inst_16/c_extension.rs exec")],["Cpu::exec_one_cycle"],HOOK)
p("C05","Loads and stores move exactly the addressed bytes, little-endian",
"A load returns the little-endian bytes last stored at its effective address, sign- or zero-extended as the opcode says, and a store changes exactly the 1, 2, 4 or 8 addressed bytes of memory and nothing else, for every aligned address in DRAM up to its last byte. A misaligned load or store raises the matching address-misaligned exception with the effective address as trap value and changes no memory or destination register.",
["inputs","histories"],"All load/store opcodes x addresses (page and region edges, first and last bytes of DRAM, negative offsets) x data, interleaved in any order, RV32 and RV64.",
"Tests poke the DRAM object directly at a few low addresses; no load or store instruction is executed.",
[EX+"base_i.rs","src/bus.rs","src/bus/dram.rs","src/cpu.rs"],[("load/store execution",EX+"base_i.rs"),("DRAM byte access","src/bus/dram.rs"),("alignment check","src/cpu.rs trans_addr")],["Cpu::exec_one_cycle","Bus load/store"],HOOK)
p("C06","Atomics: AMOs are exact read-modify-writes, SC succeeds only when reserved",
"Each AMO returns the old memory value (sign-extended for .W) in rd and stores exactly the specified combination with rs2, even when rd=rs1 or rd=rs2. A store-conditional writes memory and returns 0 only if the most recent load-reserved of this hart was to that address and no store-conditional has executed and no timer tick (every 5000 instructions) has passed since then, and otherwise returns non-zero and leaves memory unchanged; a store-conditional that follows its load-reserved with neither in between succeeds. Misaligned or faulting AMO, LR and SC raise the load (LR) or store/AMO (others) exception and change nothing.",
["inputs","histories"],"All A opcodes x operand/memory values x register aliasing, and all interleavings of LR/SC/AMO/stores over a few addresses, RV32 and RV64.",
"No test executes an A instruction; SC success depends on the history of earlier LR/SC.",
[EX+"a_extension.rs","src/lib.rs"],[("AMO execution",EX+"a_extension.rs atomic_memory_operations_32/64"),("reservation",EX+"a_extension.rs OP_LR/OP_SC")],["Cpu::exec_one_cycle"],HOOK,[("reservation_set","address reserved by the last LR","src/cpu.rs")])
p("C07","Decoding is total: one correct instruction, or an illegal-instruction trap",
"Every 16-bit and 32-bit instruction word either decodes to exactly the RV32/RV64 IMAC_Zicsr (plus FENCE.I, MRET, SRET, WFI, SFENCE.VMA) instruction it encodes, with the right registers and immediate, or, when it is not a valid encoding for the selected XLEN (reserved encodings, unsupported extensions, RV64-only words on RV32), is rejected. Executing a rejected word raises an illegal-instruction exception whose trap value is the instruction word, and decoding never stops the emulator.",
["inputs"],"All 2^16 halfwords and all 2^30 32-bit words with low bits 11, on both XLENs.",
"Tests decode 14 words; a wrong or missing arm for any other word goes unseen.",
["src/cpu/decode.rs","src/cpu/decode/inst_32.rs","src/cpu/decode/inst_16.rs","src/cpu/decode/inst_32/base_i.rs","src/cpu/decode/inst_32/a_extension.rs","src/cpu/decode/inst_32/m_extension.rs","src/cpu/decode/inst_32/priv_extension.rs","src/cpu/decode/inst_32/zicsr_extension.rs","src/cpu/decode/inst_16/c_extension.rs"],[("32-bit decode","src/cpu/decode/inst_32.rs"),("16-bit decode","src/cpu/decode/inst_16.rs")],["cpu::decode::Decode::decode","Cpu::exec_one_cycle"])
p("C08","CSR access control: privilege and read-only rules are enforced",
"A CSR instruction executed with less privilege than the CSR number requires (bits 9:8), one that would write a read-only CSR (bits 11:10 = 3), a counter access disabled by mcounteren (or, from U-mode, scounteren), or an S-mode satp access while mstatus.TVM=1 raises an illegal-instruction exception whose trap value is the instruction word, and changes no register or CSR. An access that these rules permit to a standard machine or supervisor register, or to the cycle, time or instret counter, is not refused.",
["inputs","configurations"],"All six CSR instructions x all 4096 CSR numbers x all privilege levels x rd/rs1=x0 or not x counter-enable and TVM settings, RV32 and RV64.",
"No test executes a CSR instruction.",
[EX+"zicsr_extension.rs"],[("access check",EX+"zicsr_extension.rs check_accessible")],["Cpu::exec_one_cycle"],HOOK)
p("C09","CSR reads and writes have the defined value semantics",
"A permitted CSR instruction returns the old value in rd and then writes, sets or clears exactly the selected writable bits; CSRRS/CSRRC with x0 (or zero immediate) write nothing. sstatus is a view of exactly the supervisor fields of mstatus, and sie and sip are views of the delegated supervisor bits of mie and mip, in both directions; writes through a less privileged view never change more privileged fields. Constrained fields only ever hold legal values: MPP is never 2, the translation mode is only Bare or the implemented one, exception-pc bit 0 is 0, read-only and device-driven interrupt-pending bits ignore writes. The C bit of misa cannot be cleared where that would leave the next instruction misaligned, and while it is clear the exception pcs also read with bit 1 zero.",
["inputs","histories"],"All sequences of CSR instructions over the implemented M- and S-mode CSRs with arbitrary operands, RV32 and RV64.",
"No test reads or writes a CSR; aliasing and field legality need arbitrary write histories.",
["src/cpu/csr.rs",EX+"zicsr_extension.rs"],[("CSR file","src/cpu/csr.rs CSRs::read/write/bitset/bitclr")],["Cpu::exec_one_cycle"],HOOK,[("csrs","raw CSR storage","src/cpu/csr.rs")])
p("C10","Trap entry records cause, pc, value and status and goes to the right vector",
"When an exception or interrupt is taken, the trap goes to S-mode exactly if the hart was below M-mode and the cause is delegated, else to M-mode; the target mode's cause, epc and tval registers get the cause code (with the interrupt bit for interrupts), the address of the interrupted or faulting instruction and the defined trap value; xPIE, xIE and xPP are updated as specified; and the other mode's trap registers and all general registers are unchanged. Execution continues at the trap-vector base, or at base+4*cause for interrupts when the vectored mode is selected.",
["inputs","configurations"],"All causes x all privilege levels x delegation settings x direct/vectored vectors x prior status bits, RV32 and RV64.",
"No test takes a trap.",
["src/cpu/trap.rs","src/cpu/csr.rs"],[("trap entry","src/cpu/trap.rs Cpu::trap")],["Cpu::exec_one_cycle","Cpu::trap"],HOOK)
p("C11","MRET, SRET, WFI, ECALL and SFENCE.VMA obey privilege and restore state",
"MRET and SRET resume at the saved exception pc in the saved previous privilege, restoring the interrupt enable from its previous-enable bit, setting that bit and resetting the previous privilege to U. MRET below M-mode, SRET in U-mode, SRET in S-mode with mstatus.TSR=1, SFENCE.VMA in U-mode, and SFENCE.VMA in S-mode with mstatus.TVM=1 raise an illegal-instruction exception with the instruction word as trap value and change nothing else; ECALL raises the environment-call cause of the current mode. No instruction other than a trap or these returns changes the privilege level.",
["inputs","histories"],"All privileged instructions x privilege levels x mstatus settings, and arbitrary trap/return nestings, RV32 and RV64.",
"No test executes a privileged instruction.",
[EX+"priv_extension.rs",EX+"base_i.rs"],[("returns and fences",EX+"priv_extension.rs exec")],["Cpu::exec_one_cycle"],HOOK)
p("C12","Interrupts: exactly the highest-priority enabled pending one is taken",
"Before each instruction the hart takes an interrupt exactly when some interrupt is pending, individually enabled and globally enabled for its target mode, and then takes the one of highest priority (machine-level targets before supervisor-level ones; external, software, timer, machine before supervisor), before executing any further instruction. Pending bits follow their sources: the machine timer bit is mtime >= mtimecmp, the machine software bit is the CLINT msip word, the external bits are the PLIC outputs, and taking an interrupt does not clear them; supervisor timer and software bits change only when software writes them.",
["inputs","histories","schedules"],"All combinations of pending, enable, delegation, global-enable bits and privilege, and histories of device and CSR writes between instructions, RV32 and RV64.",
"No test raises an interrupt; the outcome depends on 6x4 interacting bits and on device history.",
["src/cpu/trap.rs","src/bus/clint.rs","src/bus/plic.rs"],[("interrupt selection","src/cpu/trap.rs check_interrupt")],["Cpu::check_interrupt","Cpu::exec_one_cycle"],HOOK)
p("C13","Sv32/Sv39 translation and permission checks match the specification",
"In S- and U-mode with translation on (and for M-mode data accesses under MPRV), every fetch, load, store and AMO reaches exactly the physical address the page tables map it to, at any page size, or raises the matching page-fault exception with the virtual address as trap value: for invalid, reserved or misaligned-superpage entries, missing R/W/X, U-bit, SUM, MXR, A/D violations, and non-canonical Sv39 addresses. A page-table read outside memory raises an access fault, a fault leaves registers and memory unchanged, and M-mode and Bare mode use addresses untranslated.",
["inputs","configurations"],"All page-table shapes and PTE flag combinations at every level x access type x privilege x SUM/MXR/MPRV/MPP x virtual addresses, Sv32 and Sv39.",
"No test enables translation.",
["src/cpu/mmu.rs","src/cpu.rs"],[("page walk","src/cpu/mmu.rs trans_addr"),("effective privilege","src/cpu.rs trans_addr")],["Cpu::exec_one_cycle"],HOOK)
p("C14","PMP: accesses succeed exactly where the configured regions allow",
"Every S- and U-mode access (and M-mode access matching a locked entry), including page-table reads, is allowed exactly when the lowest-numbered PMP entry matching it (OFF, TOR, NA4, NAPOT; entries 0 to 15) covers it entirely and grants the needed permission, and an S/U access matching no entry is refused. Refusal raises the access-fault exception for the access type with the virtual address as trap value and no side effect, and locked entries cannot be modified.",
["inputs","configurations"],"All settings of the 16 entries (modes, permissions, lock, addresses at and around region edges) x access type, size and privilege, RV32 and RV64 CSR layouts.",
"No test configures PMP.",
["src/cpu/mmu/pmp.rs","src/cpu/csr.rs"],[("PMP matching","src/cpu/mmu/pmp.rs pmp")],["Cpu::exec_one_cycle"],HOOK)
p("C15","Exceptions are precise",
"An instruction that raises an exception leaves every general register, all memory and device state, the load reservation and every CSR other than those trap entry defines exactly as before it, and the saved exception pc is that instruction's own address. Re-executing it after the cause is removed gives the same result as if the exception had never happened.",
["inputs","fault_sequences"],"Every faulting instruction class (fetch, load, store, AMO, LR/SC, CSR, privileged, illegal, breakpoint; faults on the second half of an instruction) x fault kind x state, RV32 and RV64.",
"Needs a fault injected at every kind of instruction; no test takes a trap.",
["src/cpu/execution","src/cpu/fetch.rs","src/cpu.rs"],[("fault propagation before write-back","src/cpu/execution"),("fetch of split instructions","src/cpu/fetch.rs")],["Cpu::exec_one_cycle"],HOOK)
p("C16","Physical memory map: devices are disjoint, ROM is read-only, holes fault",
"Each physical address belongs to exactly one of boot ROM, CLINT, PLIC, UART and DRAM or to none: an access reaches only the device at that address, the boot ROM cannot be changed by the guest, and any access to an unmapped address, one past the end of a device, or of a width the device does not support raises the load, store/AMO or instruction access fault with the accessed address as trap value and no side effect. The first and last addresses of each region behave like the rest of it.",
["inputs"],"All access widths and kinds x physical addresses (dense at every region edge, random elsewhere) x both XLENs.",
"Tests use the DRAM object in isolation with a base of zero.",
["src/bus.rs","src/bus/mrom.rs","src/bus/clint.rs","src/bus/plic.rs","src/bus/uart.rs","src/bus/dram.rs"],[("address dispatch","src/bus.rs"),("range checks","src/bus/*.rs in_range")],["Bus load/store","Cpu::exec_one_cycle"],HOOK)
p("C17","No guest instruction, memory access or CSR write can crash the emulator",
"Whatever instructions the guest executes, whatever it writes to memory, page tables, CSRs and devices, in whatever order and privilege, the emulator process keeps running: every guest error becomes a RISC-V trap or defined device behaviour, never a host panic or abort. (Malformed requests to the host system-call proxy are the subject of C23 and C24.)",
["inputs","programs","histories"],"All instruction streams, memory contents and machine states a guest can produce, RV32 and RV64.",
"Absence of panics over all programs cannot be sampled by eight unit tests.",
["src/cpu","src/bus"],[("errors returned as traps","src/cpu.rs exec_one_cycle"),("device range checks","src/bus")],["Cpu::exec_one_cycle","Emulator"],HOOK)
p("C18","Timer: mtime advances steadily, time mirrors it, mtimecmp raises MTIP",
"While the guest runs, mtime never goes backwards except by a guest write and advances by 50 ticks for every 5000 executed instructions; the time CSR (and timeh on RV32) always equals mtime, including after the guest writes mtime. The machine timer interrupt is pending exactly while mtime >= mtimecmp, so raising mtimecmp above mtime withdraws it, and msip, mtimecmp and mtime read back what was written through 32- or 64-bit accesses.",
["histories","programs"],"All interleavings of execution with guest reads and writes of mtime, mtimecmp, msip and the time CSRs, RV32 and RV64.",
"No test runs the emulation loop or the CLINT.",
["src/cpu.rs","src/lib.rs","src/bus/clint.rs","src/cpu/trap.rs"],[("periodic tick","src/lib.rs emulation"),("timer_increment","src/cpu.rs timer_increment")],["guest programs run by the carron binary","Cpu::timer_increment"],HOOK)
p("C19","PLIC delivers each interrupt by priority, threshold, enable and claim",
"A context's external-interrupt line is asserted exactly when some source that is enabled for it, pending and not claimed has a priority above zero and above the context's threshold. A claim read returns the highest-priority source that is enabled for the context, pending, unclaimed and of non-zero priority, whatever the threshold (lowest number on ties), or 0 if none, and that source is not offered again until completed or its line drops; the two contexts' registers and lines are independent, priority, enable and threshold registers read back the bits written, and 64-bit accesses act as the two 32-bit ones.",
["histories"],"All histories of line changes, priority/enable/threshold writes, claims and completions over 31 sources and two contexts (a source enabled in at most one context).",
"No test touches the PLIC; correctness depends on the order of events.",
["src/bus/plic.rs","src/cpu/trap.rs"],[("best pending selection","src/bus/plic.rs context_best_pending"),("line update","src/bus/plic.rs context_update")],["Plic::set_interrupt_level","Bus load/store at 0x0c000000","mip"],HOOK)
p("C20","UART passes every byte through, in order, both ways, with correct status",
"Every byte the guest writes to the transmit register (DLAB and loop-back off) appears on standard output exactly once, unchanged and in order, and nothing else the UART does appears there. Every byte arriving on standard input is delivered by receive-register reads exactly once, unchanged and in order; the data-ready status is set exactly while unread bytes are queued; a FIFO clear discards them; loop-back returns transmitted bytes; the divisor latches and scratch registers hold what was written; and source 1 of the PLIC is raised exactly while an enabled UART interrupt condition (receive data, transmitter empty) holds.",
["histories","inputs"],"All byte streams and all histories of register reads/writes (either signedness of byte load), ticks and input arrivals.",
"No test touches the UART or standard input.",
["src/bus/uart.rs","src/bus/uart/io.rs"],[("register access","src/bus/uart.rs load8_with_plic/store8_with_plic"),("interrupt update","src/bus/uart/io.rs")],["stdin/stdout of the process","Bus load/store at 0x10000000"])
p("C21","ELF images load byte-exactly and start at the entry point",
"After loading a well-formed 32- or 64-bit RISC-V ELF, every file-backed byte of every PT_LOAD segment is at its physical address, the rest of DRAM (including each segment's zero-fill) reads zero, and the reset code starts the guest at the image's entry point with a0=hart id and a1=device-tree address in the XLEN of the ELF class; --pc overrides the start address. A kernel or initrd given on the command line is placed byte-exactly at its documented place without disturbing other bytes, and a non-ELF file is refused.",
["inputs","configurations"],"All well-formed ELF files (class, number, order, size and alignment of segments and sections, entry address) and option combinations.",
"Tests load one prebuilt HelloWorld and never look at memory.",
["src/elfload.rs","src/elfload/elf_32","src/elfload/elf_64","src/bus/dram.rs","src/bus/mrom.rs"],[("segment copy","src/bus/dram.rs Dram::new"),("reset vector","src/bus/mrom.rs Mrom::new")],["ElfLoader","Emulator::new","guest execution"],HOOK)
p("C22","The device tree is well-formed and describes the machine actually emulated",
"At the address passed to the guest there is a valid flattened device tree (header, aligned structure block, balanced nodes, in-range strings, unique resolvable phandles), 8-byte aligned and inside the boot ROM. Its memory, CLINT, PLIC, UART, cpu (isa, mmu-type, pmp regions), interrupt-routing, timebase and chosen (stdout path, initrd range) properties agree with the emulated machine for every DRAM base, initrd size and XLEN.",
["configurations"],"All combinations of XLEN, DRAM base address and initrd presence/size.",
"No test generates or parses a device tree.",
["src/bus/device_tree.rs","src/bus/device_tree/dts.rs","src/bus/device_tree/dtb","src/bus/mrom.rs"],[("dts template","src/bus/device_tree/dts.rs"),("dtb writer","src/bus/device_tree/dtb")],["boot ROM bytes"])
p("C23","Proxied system calls do what the host call does, on the guest's own descriptors",
"Each supported proxied call (openat, close, lseek, read, write, pread, pwrite, fstat, fstatat, getmainvars) has the effect of the host call on the file the guest descriptor denotes and returns its result or minus the host error number, copying exactly the bytes transferred to or from guest memory and nothing else. Guest descriptors are the lowest free numbers, map only to files the guest opened (or 0-2), and are invalid after close; stat results are laid out as the riscv64 struct stat; every request is answered exactly once.",
["histories","inputs"],"All sequences of proxied calls with arbitrary descriptors, names, lengths, offsets, flags and buffers, including failing ones.",
"No test issues a proxied call.",
["src/fesvr.rs","src/fesvr/syscall.rs"],[("dispatch","src/fesvr.rs exec_syscall/handle_syscall"),("descriptor table","src/fesvr.rs FrontendServer")],["tohost/fromhost words","host files"])
p("C24","Hostile guest requests never make the emulator touch memory it does not own",
"No guest program, however its system-call requests, buffers, lengths, names and descriptors are chosen, makes the emulator process read or write host memory out of bounds or after free, or pass the host kernel a buffer smaller than the length it announces. A request is answered with a result or an error, or the emulator stops in an orderly way.",
["inputs","histories"],"All system-call requests (names without terminator, zero and huge lengths, pointers at and beyond DRAM edges, invalid descriptors) and ELF images.",
"Memory errors in unsafe code show only under a sanitizer and on hostile inputs.",
["src/fesvr/syscall.rs","src/elfload.rs","src/bus/dram.rs"],[("unsafe host calls","src/fesvr/syscall.rs"),("mmap","src/elfload.rs try_new")],["AddressSanitizer reports","strace of buffers"])
p("C25","Address triggers fire on exactly the matching accesses",
"With an address-match trigger (type 2, exact match) set up in any of the eight trigger slots, by any CSR write instruction, the hart raises a breakpoint exception with the matched address as trap value exactly when, in a mode the trigger enables, an instruction at that address is about to execute (execute trigger), or a load or a store accesses exactly that address (load/store trigger), before it has any effect. Disabled triggers, other slots and other addresses never cause or suppress a breakpoint.",
["configurations","programs"],"All settings of eight triggers (mode, access type, address) x accesses x privilege levels x write order of tselect/tdata1/tdata2.",
"No test sets a trigger.",
["src/cpu/csr/breakpoint.rs","src/cpu/csr.rs"],[("match","src/cpu/csr/breakpoint.rs check_breakpoint"),("slot selection","src/cpu/csr/breakpoint.rs update_triggers")],["Cpu::exec_one_cycle"],HOOK)
p("C26","Execution is deterministic and independent of the log level",
"Running the same ELF with the same arguments and the same (or no) input gives the same instruction trace, UART output, host effects and exit status every time, and choosing another log level adds log lines but changes neither the guest-visible execution nor the guest's output and exit status.",
["configurations","programs"],"All programs x log levels x repetitions.",
"A property of pairs of runs; no test runs a program twice.",
["src/log.rs","src/lib.rs","src/main.rs"],[("log macros","src/log.rs"),("emulation loop","src/lib.rs")],["process output and exit status of the carron binary"])
p("C27","ELF inspection prints what the file contains and survives any section",
"The header, segment and section listings (-e, -p, -s, -a) show the values actually in the file for every well-formed 32- and 64-bit little-endian ELF (extended section numbering aside), and the disassembly (-d) walks each executable section from start to end printing each halfword or word once, with the mnemonic it encodes, without stopping at data that is not an instruction.",
["inputs"],"All well-formed ELF files of both classes, with arbitrary bytes in executable sections.",
"No test looks at the printed output; the header offsets of fields near the end of each record are never read back.",
["src/elfload.rs","src/elfload/elf_32","src/elfload/elf_64","src/cpu/instruction.rs"],[("header parsing","src/elfload/elf_64/*.rs"),("printing","src/cpu/instruction.rs print_myself")],["standard output of carron -e/-p/-s/-d/-a"])
p("C28","Whole programs run exactly as on a reference RISC-V machine",
"For any guest program, the sequence of executed instruction addresses, register values, privilege levels, traps and memory contents the emulator produces equals that of an independent model of the RV32/RV64 IMAC machine with the same memory map and device state. In particular, results never depend on which instruction ran before except through architectural state.",
["programs","histories"],"All programs: random instruction sequences mixing every extension, traps, privilege changes, paging and devices, RV32 and RV64.",
"The tests execute one instruction; cross-instruction interference needs long mixed histories.",
["src/lib.rs","src/cpu.rs","src/cpu"],[("fetch-decode-execute loop","src/cpu.rs exec_one_cycle"),("main loop","src/lib.rs emulation")],["Cpu::exec_one_cycle","carron --loglv info"],HOOK)
p("C29","Programs end exactly when they ask to, with the status they gave",
"When the guest writes an odd value to the tohost word, or makes the exit system call, the emulator ends the process at once with that value (or exit code) modulo 256 as its exit status, with all earlier output delivered and no later guest instruction having an effect; a program that does neither keeps running. Without both tohost and fromhost symbols no memory write ends the run.",
["programs","inputs"],"All exit values (up to 64 bits), symbol tables (position, order, number of symbols, class) and programs.",
"No test runs a program to its end.",
["src/fesvr.rs","src/elfload.rs","src/lib.rs"],[("tohost polling","src/lib.rs emulation"),("exit","src/fesvr.rs handle_syscall"),("symbol lookup","src/elfload.rs get_host_addr")],["exit status and output of the carron binary"])
p("C30","The command line reaches the guest and decides what is run",
"The guest that asks for its arguments (request 2011) gets exactly the words of the command line that are not options, byte for byte and in order: the --pk file (if given), the program's file name as it was written, then the arguments, including empty ones, ones with blanks, control characters or UTF-8, and, behind --, ones that begin with a dash; as argc, argv pointers into the given buffer, a null pointer and an empty environment, or -12 with nothing written when that does not fit. Options (--pk, --kernel, --initrd, --pc, --loglv) mean the same before, between and behind the other words and with = or a blank, and never leak into the arguments. --pc starts at the given hexadecimal address. An inspection flag, --help or --version runs no guest and succeeds; a file that is missing, unreadable or not an ELF file, a missing kernel or initrd, an unknown option, a missing value or an address that is not hexadecimal runs no guest and ends with a message and a nonzero status.",
["inputs","configurations"],"All command lines: words, options, their order and form; all kinds of unusable files.",
"No test runs the binary; the argument list is only built in main.",
["src/cmdline.rs","src/main.rs","src/fesvr/syscall.rs"],[("argument parsing","src/cmdline.rs Arguments::new"),("getmainvars","src/fesvr/syscall.rs"),("dispatch","src/main.rs")],["a file the guest writes its arguments to","exit status and output of the carron binary"])
p("C31","A long run takes no more of the host than a short one",
"However many instructions, traps, interrupts, address translations, device accesses or host requests a guest has executed, the emulator's own memory, open descriptors and threads stay what the guest's present state needs: a guest that keeps to a fixed set of pages and closes the files it opens runs for ever without the emulator's process growing, and opening files never starts to fail. (Input that has arrived and not been read by the guest is kept, and excepted.)",
["histories","programs"],"Runs of any length of all kinds of looping guests.",
"No test executes more than a few instructions; growth only shows after millions.",
["src/lib.rs","src/cpu.rs","src/fesvr","src/bus"],[("main loop","src/lib.rs emulation"),("requests","src/fesvr.rs handle_syscall"),("descriptors","src/fesvr/syscall.rs")],["/proc/PID/smaps_rollup, fd and status of the carron binary"])
p("C32","The execution log says what happened",
"With --loglv info or more, the log has one pc line with the address (16 hexadecimal digits on RV64, 8 on RV32) for every instruction that was fetched, in execution order and none for what was not; a line naming the exception or interrupt for each trap taken, followed by whether it was delegated to S mode and the address it goes on at; and the number of each request to the host once. With debug or trace it also has, for every instruction executed, its decoded form with the right operation and registers, and after every step a dump of all 32 registers by name with the values they have at that point. Lines are in the order of the events.",
["programs","configurations"],"All programs, RV32 and RV64, at the levels info, debug and trace.",
"No test runs at a log level.",
["src/log.rs","src/cpu/reg.rs","src/cpu/fetch.rs","src/cpu/trap.rs","src/cpu/execution.rs","src/lib.rs","src/fesvr/syscall.rs"],[("pc lines","src/cpu/fetch.rs"),("register dump","src/cpu/reg.rs show"),("traps","src/cpu/trap.rs trap")],["standard output of carron --loglv info, debug, trace"])
p("C33","The emulator does to the host only what command line and guest ask for",
"Besides writing its standard output and error and reading its standard input, the emulator only reads the image, kernel and initrd named on the command line, and carries out the guest's own file requests, each open with exactly the name, flags and mode given and once. Nothing else is created, changed, truncated, renamed or removed (nor its mode or time altered), no other file is opened or looked at (system files of the runtime excepted), arguments meant for the guest are not taken as files, the files of the command line are never opened or mapped for writing, and no process is started, no connection made, no signal sent. This holds for runs, looks (-e -p -s -d -a) and starts that fail, whatever lies in the working directory or is set in the environment.",
["programs","configurations","environments"],"All programs, command lines, working directories and environments.",
"No test runs the binary; what is done in passing to the host leaves no trace in any result a test compares.",
["src/main.rs","src/cmdline.rs","src/elfload.rs","src/bus/dram.rs","src/fesvr/syscall.rs","src/log.rs"],[("opening of images","src/elfload.rs try_new, src/bus/dram.rs Dram::new"),("proxied requests","src/fesvr/syscall.rs")],["host system calls and files of the carron binary"])
p("C34","Emulators and their threads do not interfere with one another",
"The thread that takes in standard input and the one that runs the guest share memory only under synchronisation: no data race, however input arrives. Several emulators in one process, each in a thread of its own or taking turns in one, are independent: registers, CSRs, memory, clock, descriptors and the answers to host requests of each are what they are when it runs alone, and no two of them touch the same memory without synchronisation.",
["schedules","inputs","programs"],"All interleavings of input with execution, and of emulators with each other; all programs.",
"The tests make single machines in single threads; an interference needs an interleaving.",
["src/bus/uart.rs","src/lib.rs","src/log.rs","src/fesvr.rs","src/cpu"],[("input thread","src/bus/uart.rs Uart::new"),("emulator state","src/lib.rs Emulator")],["carron::Emulator used from several threads","ThreadSanitizer reports"],HOOK)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
