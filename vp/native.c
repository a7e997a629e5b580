/* Driver of the native build of a unit: runs one harness on recorded inputs
 * (replay) or on drawn inputs until one violates the contract. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>

struct vp_harness { const char *name; void (*fn)(void); };
extern const struct vp_harness __start_vp_harnesses[], __stop_vp_harnesses[];

#define MAXLOG 65536
struct shared {
    uint64_t n;
    uint64_t iter, skipped;
    uint64_t log[MAXLOG];
    char     label[256];
} *S;

static int replay;
static uint64_t *rlog, rn, rpos;
static uint64_t rng;
static jmp_buf jb;
static int failed;
static int mode;      /* draw style of this iteration */
static void *allocs[4096]; static int nallocs;

static uint64_t rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 2685821657736338717ull;
}
void vp_skip(void) { S->skipped++; longjmp(jb, 1); }
void vp_fail(const char *label, const char *expr)
{
    failed = 1;
    snprintf(S->label, sizeof(S->label), "%s", label);
    printf("VP-FAIL label=[%s] expr=[%.200s]\n", label, expr);
    fflush(stdout);
}
static uint64_t put(uint64_t v)
{
    if (S->n < MAXLOG) S->log[S->n++] = v;
    return v;
}
static uint64_t draw64(void)
{
    uint64_t r = rnd();
    switch (rnd() % 10) {
      case 0: return 0;
      case 1: return r & 0xf;
      case 2: return r & 0xff;
      case 3: return 1ull << (r & 63);
      case 4: return (1ull << (r & 63)) - 1;
      case 5: return -(r & 0xff);
      case 6: return r & 0xffffffff;
      case 7: return (1ull << (r & 63)) + (r >> 62);
      case 8: return ~0ull >> (r & 63);
      default: return r;
    }
}
uint64_t vp_u64(void)
{
    if (replay) return rpos < rn ? rlog[rpos++] : 0;
    return put(draw64());
}
static uint8_t draw8(void)
{
    uint64_t r = rnd();
    switch (mode & 7) {
      case 0: return r;
      case 1: return "\0\xff\x80\x7f\x01\xfe\xc0\x3f"[r & 7];
      case 2: return 'a' + r % 26;
      case 3: return 32 + r % 95;
      case 4: return (r & 3) ? "0123456789abcdefABCDEF+-.:TZ%&;=/\\\"' ,\r\n<>"[(r >> 8) % 43] : (r >> 16);
      case 5: return r & 1 ? r >> 8 : 0;
      case 6: return r & 7 ? '0' + (r >> 8) % 10 : (r >> 16);
      default: return (r & 15) ? (mode >> 3) : r >> 8;
    }
}
uint8_t vp_u8(void)
{
    if (replay) return rpos < rn ? rlog[rpos++] : 0;
    return put(rnd() & 1 ? draw8() : (uint8_t)rnd());
}
uint64_t vp_range(uint64_t lo, uint64_t hi)
{
    uint64_t v, d = hi - lo;
    if (replay) {
        v = rpos < rn ? rlog[rpos++] : 0;
        if (v < lo || v > hi) vp_skip();
        return v;
    }
    switch (rnd() % 8) {
      case 0: v = lo; break;
      case 1: v = hi; break;
      case 2: v = d ? lo + (rnd() % 8) % d : lo; break;
      case 3: v = d ? hi - (rnd() % 8) % d : hi; break;
      case 4: v = draw64(); v = d == ~0ull ? v : lo + v % (d + 1); break;
      default: v = d == ~0ull ? rnd() : lo + rnd() % (d + 1); break;
    }
    return put(v);
}
uint64_t vp_len(uint64_t bmax) { return vp_range(0, bmax); }
void *vp_alloc(size_t n)
{
    void *p = malloc(n);
    if (!p) vp_skip();
    memset(p, 0xA5, n);
    if (nallocs < 4096) allocs[nallocs++] = p;
    return p;
}
uint8_t *vp_buf(size_t n, size_t bmax)
{
    uint8_t *p = vp_alloc(n);
    for (size_t i = 0; i < bmax; i++) {
        uint8_t v;
        if (replay) v = rpos < rn ? rlog[rpos++] : 0;
        else v = put(draw8());
        if (i < n) p[i] = v;
    }
    return p;
}

static int child(void (*fn)(void), uint64_t seed, double secs, uint64_t maxit)
{
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t i = 0; i < maxit; i++) {
        rng = (seed + S->iter * 0x9E3779B97F4A7C15ull) | 1;
        rnd(); rnd();
        mode = rnd();
        S->n = 0; rpos = 0; nallocs = 0; failed = 0;
        S->iter++;
        if (!setjmp(jb)) fn();
        if (failed) return 1;
        /* memory of the iteration is leaked on purpose: freed by exit */
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > secs)
            break;
    }
    return 0;
}

int main(int argc, char **argv)
{
    void (*fn)(void) = NULL;

    if (argc < 3) {
        for (const struct vp_harness *h = __start_vp_harnesses;
             h < __stop_vp_harnesses; h++) puts(h->name);
        return 0;
    }
    for (const struct vp_harness *h = __start_vp_harnesses;
         h < __stop_vp_harnesses; h++)
        if (!strcmp(h->name, argv[1])) fn = h->fn;
    if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 3; }
    S = mmap(NULL, sizeof(*S), PROT_READ|PROT_WRITE,
             MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (!strcmp(argv[2], "replay")) {
        FILE *f = fopen(argv[3], "r");
        unsigned long long v;
        if (!f) return 3;
        rlog = calloc(MAXLOG, 8);
        while (rn < MAXLOG && fscanf(f, "%llu", &v) == 1) rlog[rn++] = v;
        fclose(f);
        replay = 1;
        alarm(60);
        if (!setjmp(jb)) fn();
        else if (!failed) { printf("VP-SKIP\n"); return 4; }
        printf(failed ? "VP-RESULT fail\n" : "VP-RESULT pass\n");
        return failed ? 1 : 0;
    }
    /* search SECS SEED OUT */
    {
        double secs = atof(argv[3]);
        uint64_t seed = strtoull(argv[4], NULL, 0) * 7919 + 13;
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        for (;;) {
            double el;
            int st, bad;
            pid_t pid;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
            if (el > secs) break;
            fflush(stdout);
            pid = fork();
            if (pid == 0) {
                alarm(30);
                _exit(child(fn, seed, secs - el, 20000));
            }
            waitpid(pid, &st, 0);
            bad = !WIFEXITED(st) || WEXITSTATUS(st) != 0;
            if (bad) {
                FILE *f = fopen(argv[5], "w");
                for (uint64_t i = 0; i < S->n; i++)
                    fprintf(f, "%llu\n", (unsigned long long)S->log[i]);
                fclose(f);
                printf("VP-FOUND iter=%llu status=%x label=[%s]\n",
                       (unsigned long long)S->iter, st, S->label);
                return 1;
            }
        }
        printf("VP-NONE iter=%llu skipped=%llu\n",
               (unsigned long long)S->iter, (unsigned long long)S->skipped);
    }
    return 0;
}

/* blocks without a runtime: only ever called, never copied */
__attribute__((weak)) void *_NSConcreteGlobalBlock[32];
__attribute__((weak)) void *_NSConcreteStackBlock[32];
