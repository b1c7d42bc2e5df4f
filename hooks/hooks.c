// Harness side of the external functions that generated programs call, and a checking allocator.
// Linked by the Clara compiler itself together with install/init/*.c (scratch copy of the install directory).
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>

// ---------------------------------------------------------------------------------------------------------------------
// Allocator: bump allocation, every block between red zones, freed blocks are poisoned and never reused.

#define ARENA (1UL << 31)
#define ZONE 32
#define MAGIC 0x5ca1ab1eUL
typedef struct hdr { size_t size; unsigned magic; unsigned freed; struct hdr *next; long id; } hdr;   // 32 bytes
static char *arena, *top;
static hdr *all;
static int bad_exit;
long vfreed_count;

static void die(int code, const char *msg)
{
    bad_exit = code;
    fflush(stdout);
    if (write(2, msg, strlen(msg)) < 0) {}
    _exit(code);
}

static void *get(size_t n)
{
    if (!arena) {
        arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED) _exit(95);
        top = arena;
    }
    size_t sz = (n + 15) & ~15UL;
    if (top + sizeof(hdr) + sz + 2 * ZONE > arena + ARENA) die(95, "harness: arena exhausted\n");
    hdr *h = (hdr *)top;
    h->size = n; h->magic = MAGIC; h->freed = 0; h->next = all; h->id = 0;
    all = h;
    char *p = top + sizeof(hdr) + ZONE;
    memset(p - ZONE, 0xCC, ZONE);
    memset(p + n, 0xCC, sz - n + ZONE);
    top = p + sz + ZONE;
    return p;
}

static hdr *head(void *p)
{
    hdr *h = (hdr *)((char *)p - ZONE - sizeof(hdr));
    if ((char *)p < arena || (char *)p >= top || h->magic != MAGIC) die(94, "harness: not a block\n");
    return h;
}

static void check(hdr *h)
{
    unsigned char *p = (unsigned char *)h + sizeof(hdr);
    size_t sz = (h->size + 15) & ~15UL;
    for (int i = 0; i < ZONE; i++) if (p[i] != 0xCC) die(93, "harness: write before block\n");
    p += ZONE;
    for (size_t i = h->size; i < sz + ZONE; i++) if (p[i] != 0xCC) die(93, "harness: write after block\n");
    if (h->freed) for (size_t i = 0; i < h->size; i++) if (p[i] != 0xDD) die(92, "harness: write after free\n");
}

void *malloc(size_t n) { return get(n); }
void *calloc(size_t a, size_t b)
{
    if (b && a > ARENA / b) return 0;
    if (a * b > ARENA / 4) return 0;
    void *p = get(a * b); memset(p, 0, a * b); return p;
}
void *realloc(void *p, size_t n)
{
    void *q = get(n);
    if (p) { hdr *h = head(p); memcpy(q, p, h->size < n ? h->size : n); }
    return q;
}
void free(void *p)
{
    if (!p) return;
    hdr *h = head(p);
    if (h->freed) die(91, "harness: double free\n");
    check(h);
    h->freed = 1;
    vfreed_count++;
    memset(p, 0xDD, h->size);
}
void *memalign(size_t a, size_t n) { (void)a; return get(n); }
void *aligned_alloc(size_t a, size_t n) { (void)a; return get(n); }
int posix_memalign(void **r, size_t a, size_t n) { (void)a; *r = get(n); return 0; }

static void at_end(void) __attribute__((destructor));
static void at_end(void)
{
    if (bad_exit) return;
    for (hdr *h = all; h; h = h->next) check(h);
}

// ---------------------------------------------------------------------------------------------------------------------
// Case selection: which entry point of the generated file to run

long vcase(void) { char *s = getenv("VCASE"); return s ? atol(s) : 0; }

// ---------------------------------------------------------------------------------------------------------------------
// Liveness of Clara objects: tag an object with a number, later ask whether the block that holds it was freed. The
// number arrives unconverted (twice plus one).

static hdr *tagged[4096];
long vtrack(char *obj, long id)
{
    hdr *h = all;
    while (h && !(obj >= (char *)h + sizeof(hdr) + ZONE && obj <= (char *)h + sizeof(hdr) + ZONE + h->size)) h = h->next;
    tagged[id >> 1] = h;
    return 1;
}
long vprobe(long id) { long f = tagged[id] ? tagged[id]->freed : 2; printf("p %ld %ld\n", id, f); return f; }

// ---------------------------------------------------------------------------------------------------------------------
// Observing functions: print the arguments, complain about a misaligned stack, destroy caller-saved registers

#define ALIGN() do { if ((uintptr_t)__builtin_frame_address(0) & 15) printf("MISALIGNED\n"); } while (0)
#define CLOBBER() __asm__ volatile("mov $0x5a5a5a5a5a5a5a5b, %%rax\n mov %%rax, %%rcx\n mov %%rax, %%rdx\n mov %%rax, %%rsi\n" \
    "mov %%rax, %%rdi\n mov %%rax, %%r8\n mov %%rax, %%r9\n mov %%rax, %%r10\n mov %%rax, %%r11\n" \
    ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "memory")

long vraw0(void) { ALIGN(); printf("r0\n"); CLOBBER(); return 0; }
long vraw1(long a) { ALIGN(); printf("r1 %ld\n", a); CLOBBER(); return a; }
long vraw2(long a, long b) { ALIGN(); printf("r2 %ld %ld\n", a, b); CLOBBER(); return a + 2 * b; }
long vraw3(long a, long b, long c) { ALIGN(); printf("r3 %ld %ld %ld\n", a, b, c); CLOBBER(); return a + 2 * b + 3 * c; }
long vraw4(long a, long b, long c, long d)
{ ALIGN(); printf("r4 %ld %ld %ld %ld\n", a, b, c, d); CLOBBER(); return a + 2 * b + 3 * c + 4 * d; }
long vraw5(long a, long b, long c, long d, long e)
{ ALIGN(); printf("r5 %ld %ld %ld %ld %ld\n", a, b, c, d, e); CLOBBER(); return a + 2 * b + 3 * c + 4 * d + 5 * e; }
long vraw6(long a, long b, long c, long d, long e, long f)
{ ALIGN(); printf("r6 %ld %ld %ld %ld %ld %ld\n", a, b, c, d, e, f); CLOBBER(); return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f; }
// raw strings are C strings
long vstr(char *s, long n, char *t) { ALIGN(); printf("S %s %ld %s\n", s, n, t); CLOBBER(); return n; }
// raw arrays point to their elements (tagged integers)
long vmix(long n, char *s, long m, long *a)
{
    ALIGN();
    printf("M %s %ld %ld", s, n, m);
    for (long i = 0; i < n; i++) printf(" %ld", a[i] >> 1);
    printf("\n"); CLOBBER(); return n + m;
}
long vbytes(signed char *b, long n)
{
    ALIGN();
    printf("B");
    for (long i = 0; i < n; i++) printf(" %d", b[i]);
    printf("\n"); CLOBBER(); return n;
}
// without raw values arguments arrive unconverted & results go back unconverted
long vid(long x) { ALIGN(); CLOBBER(); return x; }
long vsecond(long x, long y, long z) { (void)x; (void)z; ALIGN(); CLOBBER(); return y; }
// The clock: set by the program, every reading is one microsecond after the one before
struct vtimeval { long sec, usec; };
static struct vtimeval vnow;
long vclock(long sec, long usec) { ALIGN(); vnow.sec = sec; vnow.usec = usec; CLOBBER(); return sec; }
int gettimeofday(struct vtimeval *t, void *zone)
{
    ALIGN();
    if (zone) printf("ZONE\n");
    *t = vnow;
    if (vnow.usec == 999999) { vnow.sec++; vnow.usec = 0; } else vnow.usec++;
    CLOBBER();
    return 0;
}
long vtick(long a) { ALIGN(); printf("t %ld\n", a); CLOBBER(); return a; }
void *vids(void *x) { ALIGN(); CLOBBER(); return x; }

// ---------------------------------------------------------------------------------------------------------------------
// Scripted operations: the next number of the file named by VOPS (-1 at its end)

long vnext(void)
{
    static FILE *f;
    static char buf[1 << 16];
    if (!f) { char *n = getenv("VOPS"); f = n ? fopen(n, "r") : 0; if (f) setvbuf(f, buf, _IOFBF, sizeof buf); }
    long x;
    return f && fscanf(f, "%ld", &x) == 1 ? x : -1;
}

// ---------------------------------------------------------------------------------------------------------------------
// Recording to the file named by VOUT: numbers and byte strings

static FILE *rec(void)
{
    static FILE *f;
    if (!f) { char *n = getenv("VOUT"); f = fopen(n ? n : "/dev/null", "w"); if (!f) _exit(96); setvbuf(f, 0, _IONBF, 0); }
    return f;
}
long vdump(unsigned char *s, long n)
{
    char *b = __builtin_alloca(64);
    int k = snprintf(b, 64, "D %ld ", n);
    fwrite(b, 1, k, rec());
    if (n > 0) fwrite(s, 1, n, rec());
    fwrite("\n", 1, 1, rec());
    return n;
}
long vnum(long n) { fprintf(rec(), "N %ld\n", n); return n; }
