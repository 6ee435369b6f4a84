// Loads a linked ELF image from standard input at its own addresses in a fresh
// process, calls its entry point as a function and prints the returned value.
#define _GNU_SOURCE
#include <elf.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
static unsigned char buf[16 << 20];
int main(void) {
	size_t n = fread(buf, 1, sizeof buf, stdin);
	Elf64_Ehdr *e = (void *)buf;
	if (n < sizeof *e || memcmp(e->e_ident, "\177ELF", 4) || e->e_phoff + (uint64_t)e->e_phnum * sizeof(Elf64_Phdr) > n) return 3;
	for (int i = 0; i < e->e_phnum; i++) {
		Elf64_Phdr *p = (Elf64_Phdr *)(buf + e->e_phoff) + i;
		if (p->p_type != PT_LOAD || !p->p_memsz) continue;
		if (p->p_offset + p->p_filesz > n || p->p_memsz > (256 << 20) || p->p_vaddr < 0x10000 || p->p_vaddr > 0x10000000) return 4;
		uint64_t a = p->p_vaddr & ~4095ul, z = (p->p_vaddr + p->p_memsz + 4095) & ~4095ul;
		if (mmap((void *)a, z - a, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)a) return 5;
		memcpy((void *)p->p_vaddr, buf + p->p_offset, p->p_filesz);
	}
	struct rlimit rl = { 10, 10 }; setrlimit(RLIMIT_CPU, &rl);
	rl = (struct rlimit){ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	uint64_t (*f)(void) = (uint64_t (*)(void))e->e_entry;
	// the image may do nothing but compute: no system calls from here on
	uint64_t r = f();
	printf("%016lx\n", r);
	return 0;
}
