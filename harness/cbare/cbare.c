/* Freestanding driver of the C engine for targets that have no C library here. Reads commands from standard input:
 *   'P' u32 vector, 80 x u32            store message differences for the vector with this mask bit
 *   'R'                                 restore the table
 *   'M' u8 n, n x (u8 misalign, u32 len, bytes)   hash a message delivered in n updates; writes 20 digest bytes, 1 verdict byte
 *   'T' u64 count, 5 x u32, u32 len, bytes        the same for a context that has absorbed count bytes (multiple of 64)
 *   'W' 80 x u32                        unavoidable-condition mask; writes 4 bytes
 *   'E'                                 end
 * All numbers are big-endian. */
#include <stdint.h>
#include <stddef.h>
#include "sha1.h"
#include "ubc_check.h"

typedef long L;
#if defined(__s390x__)
#define NR 3, 4, 1
static L sc(L n, L a, L b, L c) { register L r1 __asm__("1") = n; register L r2 __asm__("2") = a; register L r3 __asm__("3") = b; register L r4 __asm__("4") = c;
	__asm__ volatile("svc 0" : "+r"(r2) : "r"(r1), "r"(r3), "r"(r4) : "memory"); return r2; }
__asm__(".globl _start\n_start: aghi %r15,-160\n brasl %r14,cmain\n");
#elif defined(__powerpc__)
#define NR 3, 4, 1
static L sc(L n, L a, L b, L c) { register L r0 __asm__("0") = n; register L r3 __asm__("3") = a; register L r4 __asm__("4") = b; register L r5 __asm__("5") = c;
	__asm__ volatile("sc" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) : : "memory", "cr0", "ctr", "6", "7", "8", "9", "10", "11", "12"); return r3; }
#ifdef __powerpc64__
__asm__(".globl _start\n.type _start,@function\n_start: addis 2,12,.TOC.-_start@ha\n addi 2,2,.TOC.-_start@l\n stdu 1,-128(1)\n bl cmain\n nop\n");
#else
__asm__(".globl _start\n_start: stwu 1,-64(1)\n bl cmain\n nop\n");
#endif
#elif defined(__mips__)
#ifdef __mips64
#define NR 5000, 5001, 5058
#else
#define NR 4003, 4004, 4001
#endif
static L sc(L n, L a, L b, L c) { register L v0 __asm__("$2") = n; register L a0 __asm__("$4") = a; register L a1 __asm__("$5") = b; register L a2 __asm__("$6") = c; register L a3 __asm__("$7");
	__asm__ volatile("syscall" : "+r"(v0), "=r"(a3) : "r"(a0), "r"(a1), "r"(a2) : "memory", "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25"); return v0; }
#ifdef __mips64
__asm__(".globl _start\n.set push\n.set noreorder\n_start: daddiu $29,$29,-64\n jal cmain\n nop\n.set pop\n");
#else
__asm__(".globl _start\n.set push\n.set noreorder\n_start: addiu $29,$29,-64\n jal cmain\n nop\n.set pop\n");
#endif
#elif defined(__sparc__)
#define NR 3, 4, 1
static L sc(L n, L a, L b, L c) { register L g1 __asm__("g1") = n; register L o0 __asm__("o0") = a; register L o1 __asm__("o1") = b; register L o2 __asm__("o2") = c;
	__asm__ volatile("ta 0x6d" : "+r"(o0) : "r"(g1), "r"(o1), "r"(o2) : "memory", "cc"); return o0; }
__asm__(".globl _start\n_start: sub %sp,192,%sp\n call cmain\n nop\n");
#elif defined(__aarch64__)
#define NR 63, 64, 93
static L sc(L n, L a, L b, L c) { register L x8 __asm__("x8") = n; register L x0 __asm__("x0") = a; register L x1 __asm__("x1") = b; register L x2 __asm__("x2") = c;
	__asm__ volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2) : "memory"); return x0; }
__asm__(".globl _start\n_start: bl cmain\n");
#elif defined(__arm__)
#define NR 3, 4, 1
static L sc(L n, L a, L b, L c) { register L r7 __asm__("r7") = n; register L r0 __asm__("r0") = a; register L r1 __asm__("r1") = b; register L r2 __asm__("r2") = c;
	__asm__ volatile("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2) : "memory"); return r0; }
__asm__(".globl _start\n_start: bl cmain\n");
#elif defined(__riscv)
#define NR 63, 64, 93
static L sc(L n, L a, L b, L c) { register L a7 __asm__("a7") = n; register L a0 __asm__("a0") = a; register L a1 __asm__("a1") = b; register L a2 __asm__("a2") = c;
	__asm__ volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory"); return a0; }
__asm__(".globl _start\n_start: call cmain\n");
#elif defined(__loongarch__)
#define NR 63, 64, 93
static L sc(L n, L a, L b, L c) { register L a7 __asm__("$r11") = n; register L a0 __asm__("$r4") = a; register L a1 __asm__("$r5") = b; register L a2 __asm__("$r6") = c;
	__asm__ volatile("syscall 0" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory", "$r12", "$r13", "$r14", "$r15", "$r16", "$r17", "$r18", "$r19", "$r20"); return a0; }
__asm__(".globl _start\n_start: bl cmain\n");
#elif defined(__i386__)
#define NR 3, 4, 1
static L sc(L n, L a, L b, L c) { L r; __asm__ volatile("int $0x80" : "=a"(r) : "0"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
__asm__(".globl _start\n_start: andl $-16,%esp\n call cmain\n");
#endif
static const int nr[3] = {NR};

void *memcpy(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; while (n--) { *p++ = *q++; __asm__ volatile("" ::: "memory"); } return d; }
void *memmove(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; if (p < q) return memcpy(d, s, n); while (n--) { p[n] = q[n]; __asm__ volatile("" ::: "memory"); } return d; }
void *memset(void *d, int c, size_t n) { unsigned char *p = d; while (n--) { *p++ = c; __asm__ volatile("" ::: "memory"); } return d; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (; n--; p++, q++) if (*p != *q) return *p - *q; return 0; }

static unsigned char out[1 << 16], in[1 << 16], msg[1 << 17];
static unsigned no, ni, pi;
static void quit(int c) { for (;;) sc(nr[2], c, 0, 0); }
static void flush(void) { unsigned o = 0; while (o < no) { L k = sc(nr[1], 1, (L)(out + o), no - o); if (k <= 0) quit(9); o += k; } no = 0; }
static void put(unsigned char c) { if (no == sizeof out) flush(); out[no++] = c; }
static unsigned char get(void) { if (pi == ni) { L k = sc(nr[0], 0, (L)in, sizeof in); if (k <= 0) quit(8); ni = k; pi = 0; } return in[pi++]; }
static uint32_t g32(void) { uint32_t v = 0; int i; for (i = 0; i < 4; i++) v = v << 8 | get(); return v; }

#ifdef TABLE
static uint32_t save[33][80];
static uint32_t *dm(int k) { return (uint32_t *)(uintptr_t)sha1_dvs[k].dm; }
#endif
static void done(SHA1_CTX *c)
{
	unsigned char d[20];
	int i, v = SHA1DCFinal(d, c);
	for (i = 0; i < 20; i++) put(d[i]);
	put(v != 0);
	flush();
}

void cmain(void)
{
	static SHA1_CTX c;
	static uint32_t w[80];
	int i, k;
#ifdef TABLE
	for (k = 0; k < 33; k++) { memcpy(save[k], dm(k), 320); if (!sha1_dvs[k].dvType) break; }
#endif
	for (;;) {
		switch (get()) {
		case 'P': {
			uint32_t b = g32();
			for (i = 0; i < 80; i++) w[i] = g32();
#ifdef TABLE
			for (k = 0; k < 33 && sha1_dvs[k].dvType; k++)
				if ((uint32_t)sha1_dvs[k].maskb == b) memcpy(dm(k), w, 320);
#endif
			break;
		}
		case 'R':
#ifdef TABLE
			for (k = 0; k < 33 && sha1_dvs[k].dvType; k++) memcpy(dm(k), save[k], 320);
#endif
			break;
		case 'M': {
			unsigned n = get();
			memset(&c, 0xa5, sizeof c);
			SHA1DCInit(&c);
			while (n--) {
				unsigned off = get();
				uint32_t l = g32(), j;
				if (l + off > sizeof msg) quit(7);
				for (j = 0; j < l; j++) msg[off + j] = get();
				SHA1DCUpdate(&c, (const char *)msg + off, l);
			}
			done(&c);
			break;
		}
		case 'T': {
			uint64_t t = (uint64_t)g32() << 32;
			uint32_t l, j;
			t |= g32();
			memset(&c, 0xa5, sizeof c);
			SHA1DCInit(&c);
			for (i = 0; i < 5; i++) w[i] = g32();
#ifdef TOTAL
			c.total = t;
			for (i = 0; i < 5; i++) c.ihv[i] = w[i];
#endif
			l = g32();
			for (j = 0; j < l; j++) msg[j] = get();
			SHA1DCUpdate(&c, (const char *)msg, l);
			done(&c);
			break;
		}
		case 'W': {
			uint32_t m = 0x12345678;
			for (i = 0; i < 80; i++) w[i] = g32();
			ubc_check(w, &m);
			for (i = 24; i >= 0; i -= 8) put(m >> i);
			break;
		}
		case 'E':
			flush();
			quit(0);
		default:
			quit(6);
		}
	}
}

/* 64-bit helpers some 32-bit targets call */
uint64_t __ashldi3(uint64_t a, int n) { uint32_t h = a >> 32, l = (uint32_t)a; if (n >= 32) { h = l << (n - 32); l = 0; } else if (n) { h = h << n | l >> (32 - n); l <<= n; } return (uint64_t)h << 32 | l; }
uint64_t __lshrdi3(uint64_t a, int n) { uint32_t h = a >> 32, l = (uint32_t)a; if (n >= 32) { l = h >> (n - 32); h = 0; } else if (n) { l = l >> n | h << (32 - n); h >>= n; } return (uint64_t)h << 32 | l; }
void __stack_chk_fail(void) { quit(5); }
void abort(void) { quit(5); }
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { quit(5); }
void __aeabi_memcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memcpy4(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memcpy8(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memset(void *d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memclr(void *d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr4(void *d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr8(void *d, size_t n) { memset(d, 0, n); }
void __aeabi_memset4(void *d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memset8(void *d, size_t n, int c) { memset(d, c, n); }
