# Call-boundary monitor.  guard_call (target in r11, routine to run just before returning in r10) is reached by a jump from a thunk, with the stack exactly as the
# caller left it; it checks the caller's stack alignment, plants sentinels in the callee-saved registers, calls the
# target with its stack arguments in place, then checks what the callee had to preserve and destroys what it did not.
.intel_syntax noprefix
.section .data
.align 16
.global guard_bad, guard_calls, guard_top
guard_sp: .quad guard_stack
guard_target: .quad 0
guard_bad: .quad 0
guard_calls: .quad 0
guard_top: .quad 0
guard_fpu: .long 0, 0, 0, 0
.global guard_gf, guard_gd
.align 16
guard_gf: .long 0, 0x7fa1b2c3, 0x7fd4e5f6, 0xffa7b8c9
guard_gd: .quad 0, 0xfff4a5b6c7d8e9f0
guard_junk: .quad 0x7ff4deadbeef5a5a, 0xfff4c0ffee5aa5a5
.section .bss
.align 16
guard_stack: .skip 1048576
.section .text
.global guard_call
guard_call:
    mov [rip + guard_target], r11
    mov r11, [rip + guard_sp]
    pop qword ptr [r11]
    mov [r11 + 8], rbx
    mov [r11 + 16], rbp
    mov [r11 + 24], r12
    mov [r11 + 32], r13
    mov [r11 + 40], r14
    mov [r11 + 48], r15
    mov [r11 + 56], rsp
    mov [r11 + 64], r10
    inc qword ptr [rip + guard_calls]
    test spl, 15
    jz 1f
    or qword ptr [rip + guard_bad], 1
1:  fnstsw word ptr [rip + guard_fpu]
    test word ptr [rip + guard_fpu], 0x3800
    jz 1f
    or qword ptr [rip + guard_bad], 2
1:  add qword ptr [rip + guard_sp], 80
    movabs rbx, 0xb1b1b1b1c2c2c2c2
    movabs rbp, 0xb2b2b2b2c3c3c3c3
    movabs r12, 0xb3b3b3b3c4c4c4c4
    movabs r13, 0xb4b4b4b4c5c5c5c5
    movabs r14, 0xb5b5b5b5c6c6c6c6
    movabs r15, 0xb6b6b6b6c7c7c7c7
    movabs r10, 0xdeaddeaddeaddead
    mov r11, r10
    call [rip + guard_target]
    sub qword ptr [rip + guard_sp], 80
    mov r11, [rip + guard_sp]
    movabs r10, 0xb1b1b1b1c2c2c2c2
    cmp rbx, r10
    jne 2f
    movabs r10, 0xb2b2b2b2c3c3c3c3
    cmp rbp, r10
    jne 2f
    movabs r10, 0xb3b3b3b3c4c4c4c4
    cmp r12, r10
    jne 2f
    movabs r10, 0xb4b4b4b4c5c5c5c5
    cmp r13, r10
    jne 2f
    movabs r10, 0xb5b5b5b5c6c6c6c6
    cmp r14, r10
    jne 2f
    movabs r10, 0xb6b6b6b6c7c7c7c7
    cmp r15, r10
    je 1f
2:  or qword ptr [rip + guard_bad], 4
1:  cmp rsp, [r11 + 56]
    je 1f
    or qword ptr [rip + guard_bad], 8
    mov rsp, [r11 + 56]
1:  pushfq
    test dword ptr [rsp], 0x400
    jz 1f
    or qword ptr [rip + guard_bad], 16
    cld
1:  add rsp, 8
    stmxcsr dword ptr [rip + guard_fpu]
    mov ecx, [rip + guard_fpu]
    and ecx, 0xffc0
    cmp ecx, 0x1f80
    je 1f
    or qword ptr [rip + guard_bad], 32
1:  fnstcw word ptr [rip + guard_fpu]
    mov cx, [rip + guard_fpu]
    and cx, 0x0f3f
    cmp cx, 0x033f
    je 1f
    or qword ptr [rip + guard_bad], 64
1:  fnstsw word ptr [rip + guard_fpu]
    movzx ecx, word ptr [rip + guard_fpu]
    shr ecx, 11
    and ecx, 7
    mov [rip + guard_top], rcx
    mov rbx, [r11 + 8]
    mov rbp, [r11 + 16]
    mov r12, [r11 + 24]
    mov r13, [r11 + 32]
    mov r14, [r11 + 40]
    mov r15, [r11 + 48]
    mov rcx, [r11]
    push rcx
    mov rcx, [r11 + 64]
    mov [rip + guard_target], rcx
    movabs r10, 0xfeedfacefeedface
    mov rcx, r10
    mov rsi, r10
    mov rdi, r10
    mov r8, r10
    mov r9, r10
    mov r11, r10
    mov [rsp - 8], r10
    mov [rsp - 16], r10
    mov [rsp - 24], r10
    mov [rsp - 32], r10
    mov [rsp - 64], r10
    mov [rsp - 128], r10
    .irp x, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15
    movdqu xmm\x, [rip + guard_junk]
    .endr
    jmp [rip + guard_target]
.global guard_ret
guard_ret:
    ret
