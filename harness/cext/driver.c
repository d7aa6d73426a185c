/*
 * Runs the C code of the cgo package on a target that Go has no cgo for here:
 * requests on standard input, results on standard output, no C library. The
 * other end is overlay/cgo_ext.go.
 */
#include <stddef.h>
#include <stdint.h>
#include "sha1.h"
#include "ubc_check.h"

static long sys(long n, long a, long b, long c)
{
#if defined(__mips__)
	register long v0 __asm__("$2") = n, a0 __asm__("$4") = a, a1 __asm__("$5") = b, a2 __asm__("$6") = c, a3 __asm__("$7");
	__asm__ volatile("syscall" : "+r"(v0), "=r"(a3), "+r"(a0), "+r"(a1), "+r"(a2) : : "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "memory");
	return a3 ? -v0 : v0;
#elif defined(__s390x__)
	register long r1 __asm__("r1") = n, r2 __asm__("r2") = a, r3 __asm__("r3") = b, r4 __asm__("r4") = c;
	__asm__ volatile("svc 0" : "+r"(r2) : "r"(r1), "r"(r3), "r"(r4) : "memory");
	return r2;
#elif defined(__powerpc__)
	register long r0 __asm__("r0") = n, r3 __asm__("r3") = a, r4 __asm__("r4") = b, r5 __asm__("r5") = c;
	long err;
	__asm__ volatile("sc\n\tmfcr %0" : "=r"(err), "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) : : "cr0", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "memory");
	return err & (1 << 28) ? -r3 : r3;
#elif defined(__aarch64__)
	register long x8 __asm__("x8") = n, x0 __asm__("x0") = a, x1 __asm__("x1") = b, x2 __asm__("x2") = c;
	__asm__ volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2) : "memory");
	return x0;
#elif defined(__arm__)
	register long r7 __asm__("r7") = n, r0 __asm__("r0") = a, r1 __asm__("r1") = b, r2 __asm__("r2") = c;
	__asm__ volatile("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2) : "memory");
	return r0;
#elif defined(__i386__)
	__asm__ volatile("int $0x80" : "+a"(n) : "b"(a), "c"(b), "d"(c) : "memory");
	return n;
#else
#error target
#endif
}

#if defined(__mips__)
#define SYS_READ 4003
#define SYS_WRITE 4004
#define SYS_EXIT 4001
__asm__(".text\n.globl __start\n.set noreorder\n__start:\n\tmove $31, $0\n\tli $2, -8\n\tand $29, $29, $2\n\taddiu $29, $29, -32\n\tjal run\n\tnop\n.set reorder\n");
#elif defined(__s390x__)
#define SYS_READ 3
#define SYS_WRITE 4
#define SYS_EXIT 1
__asm__(".text\n.globl __start\n__start:\n\taghi %r15, -160\n\tlghi %r1, 0\n\tstg %r1, 0(%r15)\n\tbrasl %r14, run\n");
#elif defined(__powerpc__)
#define SYS_READ 3
#define SYS_WRITE 4
#define SYS_EXIT 1
__asm__(".text\n.globl __start\n__start:\n\trlwinm 1, 1, 0, 0, 27\n\tli 0, 0\n\tstwu 0, -16(1)\n\tmtlr 0\n\tb run\n");
#elif defined(__aarch64__)
#define SYS_READ 63
#define SYS_WRITE 64
#define SYS_EXIT 93
__asm__(".text\n.globl __start\n__start:\n\tmov x29, #0\n\tbl run\n");
#elif defined(__arm__)
#define SYS_READ 3
#define SYS_WRITE 4
#define SYS_EXIT 1
__asm__(".text\n.globl __start\n__start:\n\tmov r11, #0\n\tbic sp, sp, #7\n\tbl run\n");
#elif defined(__i386__)
#define SYS_READ 3
#define SYS_WRITE 4
#define SYS_EXIT 1
__asm__(".text\n.globl __start\n__start:\n\txorl %ebp, %ebp\n\tandl $-16, %esp\n\tcall run\n");
#endif

void *memcpy(void *d, const void *s, size_t n)
{
	unsigned char *p = d;
	const unsigned char *q = s;
	while (n--)
		*p++ = *q++;
	return d;
}

void *memmove(void *d, const void *s, size_t n)
{
	unsigned char *p = d;
	const unsigned char *q = s;
	if (p <= q)
		return memcpy(d, s, n);
	while (n--)
		p[n] = q[n];
	return d;
}

void *memset(void *d, int c, size_t n)
{
	unsigned char *p = d;
	while (n--)
		*p++ = (unsigned char)c;
	return d;
}

int memcmp(const void *a, const void *b, size_t n)
{
	const unsigned char *p = a, *q = b;
	for (; n; n--, p++, q++)
		if (*p != *q)
			return *p - *q;
	return 0;
}

__attribute__((noreturn)) void abort(void)
{
	for (;;)
		sys(SYS_EXIT, 8, 0, 0);
}

static unsigned char in[1 << 16], out[1 << 16];
static size_t at, have, used;

static void flush(void)
{
	size_t i = 0;
	while (i < used) {
		long r = sys(SYS_WRITE, 1, (long)(out + i), (long)(used - i));
		if (r <= 0)
			sys(SYS_EXIT, 5, 0, 0);
		i += (size_t)r;
	}
	used = 0;
}

static void get(void *p, size_t n)
{
	while (n) {
		size_t k;
		if (at == have) {
			long r;
			flush();
			r = sys(SYS_READ, 0, (long)in, sizeof in);
			if (r <= 0)
				sys(SYS_EXIT, 0, 0, 0);
			at = 0;
			have = (size_t)r;
		}
		k = have - at < n ? have - at : n;
		memcpy(p, in + at, k);
		p = (char *)p + k;
		at += k;
		n -= k;
	}
}

static void put(const void *p, size_t n)
{
	while (n) {
		size_t k = sizeof out - used < n ? sizeof out - used : n;
		memcpy(out + used, p, k);
		p = (const char *)p + k;
		used += k;
		n -= k;
		if (used == sizeof out)
			flush();
	}
}

static uint32_t get32(void)
{
	unsigned char b[4];
	get(b, 4);
	return (uint32_t)b[0] << 24 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 8 | b[3];
}

static void put32(uint32_t x)
{
	unsigned char b[4] = {(unsigned char)(x >> 24), (unsigned char)(x >> 16), (unsigned char)(x >> 8), (unsigned char)x};
	put(b, 4);
}

static SHA1_CTX ctx;
static unsigned char data[16 + (1 << 20)];
static uint32_t W[80];

__attribute__((noreturn, used)) void run(void)
{
	unsigned char op, sum[20];
	uint32_t i, n, mask[DVMASKSIZE];

	put32(0x76657269);
	put32(sizeof ctx);
	put32(0x01020304);
	for (;;) {
		get(&op, 1);
		switch (op) {
		case 'i': /* -> ctx */
			SHA1DCInit(&ctx);
			put(&ctx, sizeof ctx);
			break;
		case 'w': /* ctx, alignment, data -> ctx */
			get(&ctx, sizeof ctx);
			i = get32() % 16;
			n = get32();
			if (n > sizeof data - 16)
				sys(SYS_EXIT, 6, 0, 0);
			get(data + i, n);
			SHA1DCUpdate(&ctx, (const char *)data + i, n);
			put(&ctx, sizeof ctx);
			break;
		case 's': /* ctx -> sum, report */
			get(&ctx, sizeof ctx);
			n = SHA1DCFinal(sum, &ctx) != 0;
			put(sum, 20);
			put32(n);
			break;
		case 'm': /* words -> mask */
			for (i = 0; i < 80; i++)
				W[i] = get32();
			for (i = 0; i < DVMASKSIZE; i++)
				mask[i] = 0xffffffff;
			ubc_check(W, mask);
			put32(mask[0]);
			break;
#ifdef VERIF_HOOKS
		case 'j': /* chaining value, count, buffer -> ctx */
			SHA1DCInit(&ctx);
			for (i = 0; i < 5; i++)
				ctx.ihv[i] = get32();
			ctx.total = (uint64_t)get32() << 32;
			ctx.total |= get32();
			n = get32() % 64;
			get(ctx.buffer, n);
			put(&ctx, sizeof ctx);
			break;
		case 'g': /* index -> entry */
			i = get32();
			put32((uint32_t)sha1_dvs[i].dvType);
			put32((uint32_t)sha1_dvs[i].dvK);
			put32((uint32_t)sha1_dvs[i].dvB);
			put32((uint32_t)sha1_dvs[i].testt);
			put32((uint32_t)sha1_dvs[i].maski);
			put32((uint32_t)sha1_dvs[i].maskb);
			for (n = 0; n < 80; n++)
				put32(sha1_dvs[i].dm[n]);
			break;
		case 'p': /* index, difference */
			i = get32();
			for (n = 0; n < 80; n++)
				sha1_dvs[i].dm[n] = get32();
			put32(0);
			break;
#endif
		default:
			sys(SYS_EXIT, 7, 0, 0);
		}
	}
}
