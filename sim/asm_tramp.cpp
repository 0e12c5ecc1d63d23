// Preemption points inside the generated assembly: every store of the gcd routine calls dsim_asm_tramp
// (inserted into a copy of the generated text, see targets.py).  All registers, flags and vector state survive.
#include "dsim.h"
extern "C" { unsigned char dsim_asm_every = 0; void dsim_asm_point() { dsim::sync_point(); } }
asm(R"(
.text
.intel_syntax noprefix
.global dsim_asm_tramp
dsim_asm_tramp:
    pushfq
    dec qword ptr [rip+dsim_countdown]
    js 1f
    cmp byte ptr [rip+dsim_asm_every], 0
    jne 2f
    popfq
    ret
2:  push r12
    lea r12, [rip+dsim_asm_point]
    jmp 3f
1:  push r12
    lea r12, [rip+dsim_slow]
3:  push rax; push rbx; push rcx; push rdx; push rsi; push rdi; push rbp
    push r8; push r9; push r10; push r11; push r13; push r14; push r15
    mov rbx, rsp
    sub rsp, 8192
    and rsp, -64
    xor eax, eax
    lea rdi, [rsp+512]
    mov ecx, 8
    cld
    rep stosq
    mov eax, 0xE7
    xor edx, edx
    xsave64 [rsp]
    mov rbp, rsp
    call r12
    mov rsp, rbp
    mov eax, 0xE7
    xor edx, edx
    xrstor64 [rsp]
    mov rsp, rbx
    pop r15; pop r14; pop r13; pop r11; pop r10; pop r9; pop r8
    pop rbp; pop rdi; pop rsi; pop rdx; pop rcx; pop rbx; pop rax; pop r12
    popfq
    ret
.att_syntax
)");
