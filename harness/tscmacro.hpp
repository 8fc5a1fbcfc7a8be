// every rdtsc instruction of the code under test is assembled into a call of mc_rdtsc (all registers but rax, rdx kept)
#pragma once
#if defined(__x86_64__)
asm(".macro rdtsc\n lea -128(%rsp),%rsp\n pushfq\n push %rbp\n mov %rsp,%rbp\n push %rcx\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %r11\n push %rbx\n and $-16,%rsp\n call mc_rdtsc\n mov %rax,%rdx\n shr $32,%rdx\n mov %eax,%eax\n lea -64(%rbp),%rsp\n pop %rbx\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n pop %rcx\n pop %rbp\n popfq\n lea 128(%rsp),%rsp\n .endm\n");
#endif
