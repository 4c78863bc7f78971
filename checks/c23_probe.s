	.text
	.hidden vf_probe
	.globl vf_probe
# rax: value; preserves everything but rax
vf_probe:
	pushq %rdx
	pushq %rcx
	movq vf_log(%rip), %rcx
	jrcxz 1f
	movq %rax, (%rcx)
	leaq 8(%rcx), %rcx
	movq %rcx, vf_log(%rip)
1:	movq vf_hash(%rip), %rdx
	leaq (%rdx,%rax), %rdx
	movabsq $0x9E3779B97F4A7C15, %rcx
	mulx %rcx, %rax, %rcx
	leaq 1(%rax,%rcx), %rax
	movq %rax, vf_hash(%rip)
	movq vf_count(%rip), %rcx
	leaq 1(%rcx), %rcx
	movq %rcx, vf_count(%rip)
	popq %rcx
	popq %rdx
	ret
	.bss
	.globl vf_log, vf_hash, vf_count
	.hidden vf_scratch
	.globl vf_scratch
	.balign 64
vf_scratch: .skip 64
vf_log: .skip 8
vf_hash: .skip 8
vf_count: .skip 8
	.section .note.GNU-stack,"",@progbits
