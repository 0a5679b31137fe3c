/* Controlled scheduler for the C engine.
 *
 * sha1.c and ubc_check.c are compiled by clang with -fsanitize=thread but linked with the hooks below instead of
 * the TSan runtime (built with -DFREE they are linked with the real runtime and run freely). Every access to
 * memory that is not the thread's own stack and not read-only is a scheduling point. Each schedule runs in a
 * forked child, so that first-use initialisation is part of the explored behaviour.
 *
 * csched DATA [shard/of] [cap seconds] [scenario plan...]
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sha1.h>
#include <ubc_check.h>

#define NT 3
#define MAXP 200000

typedef struct { uint32_t pc; uint32_t th; } point;
struct shared {
  int steps, bad, blocked;
  char msg[400];
  point tr[MAXP];
};
static struct shared *S;

/* ---------------------------------------------------------------- reference */
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static void ref_block(uint32_t h[5], const unsigned char *p)
{
  uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
  for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
  for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
  for (int i = 0; i < 80; i++) {
    uint32_t f, k;
    if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999;
    else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
    else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
    else f = b ^ c ^ d, k = 0xCA62C1D6;
    uint32_t t = rol(a, 5) + f + e + k + w[i];
    e = d; d = c; c = rol(b, 30); b = a; a = t;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
static void ref_sha1(const unsigned char *m, size_t n, unsigned char out[20])
{
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  unsigned char buf[1024] = {0};
  memcpy(buf, m, n);
  buf[n] = 0x80;
  size_t t = (n + 8) / 64 * 64 + 64;
  for (int i = 0; i < 8; i++) buf[t - 1 - i] = (unsigned char)(((uint64_t)n * 8) >> (8 * i));
  for (size_t i = 0; i < t; i += 64) ref_block(h, buf + i);
  for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}

/* ---------------------------------------------------------------- messages */
typedef struct { unsigned char m[1024]; size_t n; unsigned char want[20]; int col; } msg;
static msg M[8];
static uint32_t W[2][80], WM[2];

static void hex(const char *s, unsigned char *o) { for (int i = 0; i < 20; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); o[i] = v; } }
static void plain(int k, size_t n) { M[k].n = n; for (size_t i = 0; i < n; i++) M[k].m[i] = (unsigned char)((i + 1) * 2654435761u >> 13) ^ (k * 37); ref_sha1(M[k].m, n, M[k].want); }
static void file(int k, const char *dir, const char *name, const char *want)
{
  char p[600]; snprintf(p, sizeof p, "%s/%s", dir, name);
  FILE *f = fopen(p, "rb");
  if (!f) { perror(p); exit(3); }
  M[k].n = fread(M[k].m, 1, 1024, f); fclose(f); hex(want, M[k].want); M[k].col = 1;
}

/* ---------------------------------------------------------------- scheduler */
static __thread int me = -1;
static __thread uintptr_t slo, shi;
static sem_t sem[NT];
static int done[NT], nthreads, plan_n, plan_at;
static struct { int step, to; } plan[4];
static int running;

static void fail(const char *s) { if (!S->bad) { S->bad = 1; strncpy(S->msg, s, sizeof S->msg - 1); } }

#ifndef FREE
extern char __executable_start, __data_start, _end;

static void switch_to(int to) { sem_post(&sem[to]); sem_wait(&sem[me]); }

static void point_(uintptr_t a, uintptr_t pc)
{
  if (me < 0 || !running) return;
  if (a >= slo && a < shi) return;
  if (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&__data_start) return;
  int k = S->steps++;
  if (k < MAXP) { S->tr[k].pc = (uint32_t)(pc - (uintptr_t)&__executable_start); S->tr[k].th = me; }
  if (plan_at < plan_n && plan[plan_at].step == k) {
    int to = plan[plan_at++].to;
    if (!done[to] && to != me) switch_to(to);
  }
}
static void block_(void)
{
  if (++S->blocked > 100000) { fail("deadlock: no thread can proceed"); _exit(0); }
  for (int i = 1; i < nthreads; i++) { int t = (me + i) % nthreads; if (!done[t]) { switch_to(t); return; } }
  fail("deadlock: the only live thread is blocked"); _exit(0);
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define P(a) point_((uintptr_t)(a), PC)
#define H1(n) void n(void *a); void n(void *a) { P(a); }
#define H(n) H1(__tsan_read##n) H1(__tsan_write##n) H1(__tsan_unaligned_read##n) H1(__tsan_unaligned_write##n) H1(__tsan_read_write##n) H1(__tsan_unaligned_read_write##n) \
  H1(__tsan_volatile_read##n) H1(__tsan_volatile_write##n) H1(__tsan_unaligned_volatile_read##n) H1(__tsan_unaligned_volatile_write##n)
H(1) H(2) H(4) H(8) H(16)
void __tsan_init(void); void __tsan_init(void) {}
void __tsan_func_entry(void *p); void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void); void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void); void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void); void __tsan_ignore_thread_end(void) {}
void __tsan_read_range(void *p, unsigned long n); void __tsan_read_range(void *p, unsigned long n) { (void)n; P(p); }
void __tsan_write_range(void *p, unsigned long n); void __tsan_write_range(void *p, unsigned long n) { (void)n; P(p); }
/* block copies are preemptible halfway */
void *__tsan_memcpy(void *d, const void *s, size_t n);
void *__tsan_memcpy(void *d, const void *s, size_t n) { P(d); P(s); size_t k = n / 2; memcpy(d, s, k); P(d); P(s); memcpy((char *)d + k, (const char *)s + k, n - k); return d; }
void *__tsan_memmove(void *d, const void *s, size_t n);
void *__tsan_memmove(void *d, const void *s, size_t n) { P(d); P(s); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n);
void *__tsan_memset(void *d, int c, size_t n) { P(d); size_t k = n / 2; memset(d, c, k); P(d); memset((char *)d + k, c, n - k); return d; }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *p, int mo); T __tsan_atomic##n##_load(const volatile T *p, int mo) { (void)mo; P(p); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int mo); void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { (void)mo; P(p); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo); T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) { (void)mo; P(p); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo); T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) { (void)mo; P(p); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo); T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) { (void)mo; P(p); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo); T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) { (void)mo; P(p); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo); T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) { (void)mo; P(p); return __atomic_fetch_and(p, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fo); int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fo) { (void)mo; (void)fo; P(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fo); int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fo) { (void)mo; (void)fo; P(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fo); T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fo) { (void)mo; (void)fo; P(p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo); void __tsan_atomic_thread_fence(int mo) { (void)mo; }

int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
  if (me < 0 || !running) return __real_pthread_mutex_lock(m);
  P(m);
  while (pthread_mutex_trylock(m) != 0) block_();
  return 0;
}
static struct { pthread_once_t *o; int st; } onces[16];
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
  int i = 0;
  while (i < 15 && onces[i].o && onces[i].o != o) i++;
  onces[i].o = o;
  P(o);
  while (onces[i].st == 1) block_();
  if (onces[i].st == 0) { onces[i].st = 1; f(); onces[i].st = 2; }
  return 0;
}
#endif

/* ---------------------------------------------------------------- bodies */
static void judge(int k, const unsigned char *d, int col)
{
  if (memcmp(d, M[k].want, 20) || !!col != M[k].col) {
    char b[300]; int n = snprintf(b, sizeof b, "thread %d message %d (%zu bytes): digest ", me, k, M[k].n);
    for (int i = 0; i < 20; i++) n += snprintf(b + n, sizeof b - n, "%02x", d[i]);
    n += snprintf(b + n, sizeof b - n, " verdict %d, want ", !!col);
    for (int i = 0; i < 20; i++) n += snprintf(b + n, sizeof b - n, "%02x", M[k].want[i]);
    snprintf(b + n, sizeof b - n, " %d", M[k].col);
    fail(b);
  }
}
static void stream(int k, size_t cut)
{
  SHA1_CTX c, d;
  unsigned char o[20];
  SHA1DCInit(&c);
  if (cut) SHA1DCUpdate(&c, (const char *)M[k].m, cut);
  SHA1DCUpdate(&c, (const char *)M[k].m + cut, M[k].n - cut);
  d = c;
  int r = SHA1DCFinal(o, &d);
  judge(k, o, r);
  r = SHA1DCFinal(o, &c);
  judge(k, o, r);
}
static void mask(int k)
{
  uint32_t m[DVMASKSIZE] = {0xFFFFFFFF};
  ubc_check(W[k], m);
  if (m[0] != WM[k]) fail("mask differs from the mask computed alone");
}
/* scenario table: per thread kind ('s' one-shot, 'c' cut at 67, 'm' mask) and message */
static const struct { const char *name; int n; char kind[NT]; int arg[NT]; } SC[] = {
  {"oneshot||oneshot", 2, {'s', 's'}, {0, 1}},
  {"stream||stream", 2, {'c', 'c'}, {2, 1}},
  {"collision||clean", 2, {'s', 's'}, {4, 3}},
  {"clean||collision", 2, {'c', 'c'}, {1, 5}},
  {"collision||collision", 2, {'s', 'c'}, {4, 5}},
  {"mask||mask", 2, {'m', 'm'}, {0, 1}},
  {"mask||oneshot", 2, {'m', 's'}, {0, 3}},
  {"three", 3, {'s', 'c', 's'}, {3, 2, 6}},
};
#define NSC ((int)(sizeof SC / sizeof SC[0]))
static int cur;
static void body(int t)
{
  switch (SC[cur].kind[t]) {
  case 's': stream(SC[cur].arg[t], 0); break;
  case 'c': stream(SC[cur].arg[t], 67); break;
  case 'm': mask(SC[cur].arg[t]); break;
  }
}
static void *thread(void *v)
{
  me = (int)(intptr_t)v;
#ifndef FREE
  pthread_attr_t at; void *lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  slo = (uintptr_t)lo; shi = slo + sz;
  sem_wait(&sem[me]);
#endif
  body(me);
#ifndef FREE
  int id = me;
  me = -1;
  done[id] = 1;
  for (int i = 0; i < nthreads; i++) if (!done[i]) { sem_post(&sem[i]); break; }
#endif
  return NULL;
}
static void execute(void)
{
  pthread_t t[NT];
  nthreads = SC[cur].n;
  plan_at = 0;
  running = 1;
  for (int i = 0; i < nthreads; i++) { sem_init(&sem[i], 0, 0); done[i] = 0; pthread_create(&t[i], NULL, thread, (void *)(intptr_t)i); }
  sem_post(&sem[0]);
  for (int i = 0; i < nthreads; i++) pthread_join(t[i], NULL);
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static long total, transitions, npoints;
static int nbad;
static void one(void)
{
  S->steps = S->bad = S->blocked = 0;
  pid_t p = fork();
  if (p == 0) { alarm(20); execute(); _exit(0); }
  int st = 0;
  waitpid(p, &st, 0);
  if (st && !S->bad) { fail("process died"); snprintf(S->msg, sizeof S->msg, "process died or hung, wait status %d", st); }
  total++;
  transitions += S->steps;
}
static void report(void)
{
  if (!S->bad) return;
  nbad++;
  printf("BAD scenario %s plan", SC[cur].name);
  for (int i = 0; i < plan_n; i++) printf(" %d>%d", plan[i].step, plan[i].to);
  printf(" : %s\n", S->msg);
}
/* representative steps: first and last time a thread passes an access site */
static int reps(const point *tr, int n, int *out)
{
  int k = 0;
  for (int i = 0; i < n; i++) {
    int earlier = 0, later = 0;
    for (int j = 0; j < i && !earlier; j++) earlier = tr[j].pc == tr[i].pc && tr[j].th == tr[i].th;
    if (earlier) for (int j = i + 1; j < n && !later; j++) later = tr[j].pc == tr[i].pc && tr[j].th == tr[i].th;
    if (!earlier || !later) out[k++] = i;
  }
  return k;
}

int main(int argc, char **argv)
{
  const char *dir = argc > 1 ? argv[1] : ".";
  int sh = 0, of = 1;
  double cap = 100;
  if (argc > 2) sscanf(argv[2], "%d/%d", &sh, &of);
  if (argc > 3) cap = atof(argv[3]);
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  plain(0, 70); plain(1, 130); plain(2, 90); plain(3, 60); plain(6, 3);
  file(4, dir, "shattered-1.320", "7117b3cb9225aaf0d8ef1a40e493957b0bf8693d");
  file(5, dir, "sha-mbles-1.bin", "4f3d9be4a472c4dae83c6314aa6c36a064c1fd14");
  for (int k = 0; k < 2; k++) for (int i = 0; i < 80; i++) W[k][i] = i < 16 ? (i + 3 + k) * 2654435761u : rol(W[k][i - 3] ^ W[k][i - 8] ^ W[k][i - 14] ^ W[k][i - 16], 1);
  int pf[2];
  for (int k = 0; k < 2; k++) { /* masks computed alone, in a process of their own */
    if (pipe(pf)) return 3;
    pid_t p = fork();
    if (p == 0) { uint32_t m[DVMASKSIZE] = {0xFFFFFFFF}; ubc_check(W[k], m); if (write(pf[1], m, 4) != 4) _exit(1); _exit(0); }
    if (read(pf[0], &WM[k], 4) != 4) return 3;
    waitpid(p, NULL, 0);
    close(pf[0]); close(pf[1]);
  }
#ifdef FREE
  (void)reps; (void)npoints;
  for (int it = 0; it < 40; it++) for (cur = 0; cur < NSC; cur++) { execute(); total++; if (S->bad) { report(); S->bad = 0; } }
  printf("DONE schedules %ld transitions 0 points 0 bad %d capped 0\n", total, nbad);
  return 0;
#else
  double t0 = now();
  int capped = 0;
  long idx = 0;
  static point base[MAXP], tr[MAXP];
  static int r1[MAXP], r2[MAXP];
  for (cur = 0; cur < NSC && !capped; cur++) {
    plan_n = 0;
    one(); report();
    if (S->bad) continue;
    int n = S->steps < MAXP ? S->steps : MAXP;
    memcpy(base, S->tr, n * sizeof(point));
    npoints += n;
    int k1 = 0, bad0 = nbad;
    if (n <= 3000) for (k1 = 0; k1 < n; k1++) r1[k1] = k1;
    else k1 = reps(base, n, r1);
    for (int a = 0; a < k1 && !capped && nbad < bad0 + 2; a++) for (int to = 0; to < SC[cur].n; to++) {
      if (to == (int)base[r1[a]].th || idx++ % of != sh) continue;
      if (now() - t0 > cap) { capped = 1; break; }
      plan_n = 1; plan[0].step = r1[a]; plan[0].to = to;
      one(); report();
      if (S->bad) continue;
      int m = S->steps < MAXP ? S->steps : MAXP;
      memcpy(tr, S->tr, m * sizeof(point));
      int k2 = 0;
      if (m <= 260) for (int i = 0; i < m; i++) r2[k2++] = i;
      else k2 = reps(tr, m, r2);
      if (n > 260) { /* second preemption only from representative first ones */
        int rep = 0; static int rb[MAXP]; static int rbn = -1, rbc = -1;
        if (rbc != cur) { rbn = reps(base, n, rb); rbc = cur; }
        for (int i = 0; i < rbn; i++) rep |= rb[i] == r1[a];
        if (!rep) k2 = 0;
      }
      for (int b = 0; b < k2 && !capped && nbad < bad0 + 2; b++) {
        if (r2[b] <= r1[a]) continue;
        for (int to2 = 0; to2 < SC[cur].n; to2++) {
          if (to2 == (int)tr[r2[b]].th) continue;
          if (now() - t0 > cap) { capped = 1; break; }
          plan_n = 2; plan[1].step = r2[b]; plan[1].to = to2;
          one(); report();
        }
      }
    }
  }
  printf("DONE schedules %ld transitions %ld points %ld bad %d capped %d\n", total, transitions, npoints, nbad, capped);
  return 0;
#endif
}
