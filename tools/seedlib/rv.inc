// Macros for guest programs.
#if XLEN == 32
#define LX lw
#define SX sw
#else
#define LX ld
#define SX sd
#endif
.macro quit status
    li a0, \status
    la a1, tohost
    sw a0, 0(a1)
1:  j 1b
.endm
.macro pass
    quit 85
.endm
.macro fail n
    quit (2*\n+1)
.endm
// fail n unless reg == value
.macro expect reg, value, n
    li a7, \value
    beq \reg, a7, 9f
    fail \n
9:
.endm
// everything allowed by PMP
.macro open_pmp
    li a7, -1
    csrw pmpaddr0, a7
    li a7, 0x1f
    csrw pmpcfg0, a7
.endm
.macro hosts
.section .tohost,"aw",@progbits
.align 6
.globl tohost
tohost: .dword 0
.align 6
.globl fromhost
fromhost: .dword 0
.endm
