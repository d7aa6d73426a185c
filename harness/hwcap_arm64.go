//go:build cgo && linux

package main

/*
#include <elf.h>
#include <stdlib.h>

extern char **environ;
static int cleared;

// Before the Go runtime looks: if VERIF_HWCAP_CLEAR is set, take the hardware
// capabilities it lists (a mask) from what the kernel says about the processor.
__attribute__((constructor)) static void clear_hwcap(void) {
	char *v = getenv("VERIF_HWCAP_CLEAR");
	if (!v)
		return;
	unsigned long mask = strtoul(v, 0, 0);
	char **p = environ;
	while (*p)
		p++;
	for (Elf64_auxv_t *a = (Elf64_auxv_t *)(p + 1); a->a_type != AT_NULL; a++)
		if (a->a_type == AT_HWCAP)
			a->a_un.a_val &= ~mask, cleared = 1;
}
static int was_cleared(void) { return cleared; }
*/
import "C"

func hwcapCleared() bool { return C.was_cleared() != 0 }
