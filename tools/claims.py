c("C15", "runtime monitoring: state before and after each trap, and against an undisturbed twin", "Two instances of the real emulator; no reference model in the main part. Says nothing about states the workload did not drive.")
c("C17", "runtime monitoring: panic, abort and hang watch over random reachable states, debug assertions on", "States and programs are sampled; the binary part runs random programs at every log level until a deadline.")
c("C21", "runtime monitoring: all host-backed memory against the bytes of the files, reset code executed", "Random images; memory the host has not backed is taken to read zero.")
c("C22", "runtime monitoring: independent strict device-tree parser, contents checked against the machine's behaviour", "Sampled over bases and initrd sizes; frequencies are compared with documented constants only.")
c("C23", "runtime monitoring: each proxied call next to the same host call on twin files, memory and trees compared", "The host kernel is the oracle; well-formed requests only. Random sequences, random descriptors, flags, names, offsets.")
c("C29", "runtime monitoring: output and exit status of the real binary, guests with a marker behind the end", "Random programs; a program that must go on is watched for some tens of thousands of instructions.")
c("C24", "sanitizers: AddressSanitizer build of the emulator under hostile guests, host-call buffers checked by interposed libc functions", "Red zones: an access that lands in another live allocation is not seen. Random hostile requests, programs, images and call sequences.")
c("C26", "runtime monitoring: the same program run again at every log level, in disturbed surroundings, outputs and traces compared", "Pairs of runs of random programs; the level that is silent for 350 million instructions is reached by setting its counter forward.")
c("C27", "runtime monitoring: every line the real binary lists against an independent reader of the file's bytes", "Random well-formed files with arbitrary field values and contents; operands of the disassembly are not compared.")
c("C30", "runtime monitoring: the real binary on generated command lines, what the guest got against what was typed", "Sampled command lines; words are valid UTF-8.")
c("C31", "runtime monitoring: memory, descriptors and threads of the running binary watched under guests without an end", "Some million instructions per guest; growth slower than about 10 KB per million instructions is not seen.")
c("C32", "runtime monitoring: the log of the real binary taken apart and compared event by event with the reference machine", "Random programs; messages in words and the details of compressed instructions are not compared." + TRUST)
c("C33", "runtime monitoring: system-call trace of the real binary, every call accounted for, files compared before and after", "Sampled programs, command lines and environments; needs strace. What each proxied call does is C23's.")
c("C34", "sanitizers: ThreadSanitizer build (standard library included) of the binary and of several emulators in one process; each compared with its run alone", "Interleavings are the host scheduler's; races are those of executions that took place.")
