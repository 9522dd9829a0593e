/*
 * libsim: deterministic system interface for one process, loaded with LD_PRELOAD.
 *
 * Threads are real but only the holder of the token runs; who gets it next is decided here, from the seed
 * (mode 1) or from a recorded list (mode 2), at every intercepted call and at every coverage callback of the
 * instrumented code. Clock, randomness, processor count, files below the scratch directory, the standard
 * streams, thread creation and large allocations are controlled by the configuration file named in SIM_CONF.
 * What happened is written to the shared file named in SIM_SHM, which survives the death of the process.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/prctl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;

/* ---- raw system calls: nothing in here may go through an interposed function ---- */

static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static long ret(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

/* ---- shared report ---- */

enum { ST_RUN, ST_DONE, ST_STEPS, ST_DEADLOCK, ST_CRASH, ST_CALLS, ST_INTERNAL };
enum { H_MAGIC, H_STATUS, H_STEPS, H_CALLS, H_SWITCHES, H_THREADS, H_CLOCK, H_DIGEST, H_NEV, H_NSW, H_GUARDS, H_MAXLIVE, H_PREEMPT, H_BLOCKED, H_NALLOC, H_BIGALLOC, H_PEAK,
       H_FAULT = 32, H_RULE = 96 };

#define NSW 65536
#define NEV 65536
#define NCOV 65536

struct sw {
    u32 tid, next;
    u64 at;
};
struct ev {
    unsigned char op, tid;
    short path;
    int err;
    int64_t arg, res;
};
struct shm {
    u64 h[512];
    struct sw sw[NSW];
    struct ev ev[NEV];
    unsigned char cov[NCOV];
};

static struct shm *S;

static void mixd(u64 v)
{
    u64 d = S->h[H_DIGEST] ^ v;
    d *= 0x9E3779B97F4A7C15ull;
    d ^= d >> 29;
    S->h[H_DIGEST] = d;
}

/* ---- configuration ---- */

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_TRUNC, OP_SYNC, OP_RENAME, OP_UNLINK, OP_THREAD, OP_ALLOC, OP_STAT, OP_JOIN, OP_FAULT, OP_CREAT, OP_LINK, OP_MMAP, OP_CHMOD };
enum { K_ERR = 1, K_SHORT, K_CRASH, K_TORN, K_CRASHAFTER, K_BUDGET, K_EOF, K_HANG, K_SWAP };

#define P_ANYFILE (-1)
#define P_NONE (-9)
#define P_STDIN 1000
#define P_STDOUT 1001
#define P_STDERR 1002

struct rule {
    int op, path, kind, sticky;
    u64 nth, every, arg, hits, left;
};
#define MAXRULES 64
static struct rule rules[MAXRULES];
static int nrules;

#define MAXPATH 64
static char names[MAXPATH][128];
static int npaths;
static char root[512];
static size_t rootlen;
static char stages[512];

static u64 seed = 1, cfg_mean = 1000, cfg_pio = 200, cfg_steps = 1ull << 40, cfg_calls = 1ull << 40, cfg_ncpu = 4;
static u64 cfg_clock = 0, cfg_clockstep = 1000, cfg_bias = 0, cfg_lifo = 0, cfg_kill = 0;
static int mode = 0; /* 0: no preemption, 1: random, 2: list */

#define MAXLIST 70000
static struct sw *list;
static int nlist;

static u64 rs[2];
static u64 rnd(void)
{
    u64 a = rs[0], b = rs[1];
    rs[0] = b;
    a ^= a << 23;
    rs[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return rs[1] + b;
}
static u64 sm(u64 *x)
{
    u64 z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static u64 below(u64 n) { return n ? (u64)(((unsigned __int128)rnd() * n) >> 64) : 0; }

/* separate streams, so that replaying a switch list leaves the clock and randomness alone */
static u64 clkseed, rndseed;

/* ---- threads ---- */

enum { T_FREE, T_RUN, T_READY, T_FUTEX, T_JOIN, T_DONE, T_SLEEP };
#define MAXT 1024
struct thr {
    int state;
    int go;
    u64 count, next_at;
    u32 *faddr;
    u64 fseq;
    u64 deadline; /* 0: none */
    int timedout;
    int eintr; /* interrupted calls in a row */
    int joining;
    pthread_t pt;
    u64 weight;
    int lp; /* cursor in list */
};
static struct thr T[MAXT];
static int nthr, cur, nlive = 1;
static u64 fseq;
static __thread int me = -1;
static __thread int inside;
static int active;
static pthread_key_t key;
static u64 now_ns = 1700000000ull * 1000000000ull;
static u64 start_ns;

static void fwait(int *p)
{
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        RAW(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void fpost(int *p)
{
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    RAW(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void die(int st)
{
    S->h[H_STATUS] = st;
    S->h[H_CLOCK] = now_ns - start_ns;
    long pid = RAW(SYS_getpid);
    RAW(SYS_kill, pid, SIGKILL);
    for (;;)
        RAW(SYS_pause);
}

static void event(int op, int path, int64_t arg, int64_t res, int err)
{
    u64 n = S->h[H_NEV]++;
    if (n < NEV) {
        struct ev *e = &S->ev[n];
        e->op = op;
        e->tid = me;
        e->path = path;
        e->arg = arg;
        e->res = res;
        e->err = err;
    }
    if (path == P_STDERR)
        arg = res = 0; /* texts of messages are nobody's business */
    mixd(((u64)op << 56) ^ ((u64)(me & 0xff) << 48) ^ ((u64)(path & 0xffff) << 32) ^ (u64)(u32)err);
    mixd((u64)arg * 31 + (u64)res);
}

static void total_steps(void)
{
    u64 s = 0;
    for (int i = 0; i < nthr; i++)
        s += T[i].count;
    S->h[H_STEPS] = s;
    if (s > cfg_steps)
        die(ST_STEPS);
}

/* when must thread t enter the slow path again? */
static void plan_next(struct thr *t)
{
    u64 far = t->count + 200000;
    if (mode == 1 && nlive > 1) {
        /* geometric-like: uniform in 1..2*mean */
        u64 d = 1 + below(2 * cfg_mean);
        t->next_at = t->count + d < far ? t->count + d : far;
    } else if (mode == 2) {
        int id = (int)(t - T), i = t->lp;
        while (i < nlist && (list[i].tid != (u32)id || list[i].at <= t->count))
            i++;
        t->next_at = i < nlist && list[i].at < far ? list[i].at : far;
    } else
        t->next_at = far;
}

static int runnable(int i) { return T[i].state == T_READY; }

static int pick(int notme)
{
    int c[MAXT], n = 0;
    u64 tot = 0;
    for (int i = 0; i < nthr; i++)
        if (runnable(i) && i != notme)
            c[n++] = i, tot += T[i].weight;
    if (!n)
        return -1;
    if (mode != 1)
        return c[0];
    if (n == 1)
        return c[0];
    u64 x = below(tot);
    for (int i = 0; i < n; i++) {
        if (x < T[c[i]].weight)
            return c[i];
        x -= T[c[i]].weight;
    }
    return c[n - 1];
}

static void record(int next)
{
    u64 n = S->h[H_NSW]++;
    if (n < NSW) {
        S->sw[n].tid = me;
        S->sw[n].next = next;
        S->sw[n].at = T[me].count;
    }
    S->h[H_SWITCHES]++;
    mixd(0x5157ull << 48 ^ ((u64)me << 40) ^ ((u64)next << 32));
    mixd(T[me].count);
}

/* hand the token to `next`; the caller's state has been set already */
static void give(int next)
{
    cur = next;
    T[next].state = T_RUN;
    fpost(&T[next].go);
}

static void handover(int next)
{
    struct thr *t = &T[me];
    record(next);
    give(next);
    fwait(&t->go);
    plan_next(t);
}

/* nobody can run: let time pass for sleepers, or stop */
static int wake_by_time(void)
{
    int best = -1;
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && (best < 0 || T[i].deadline < T[best].deadline))
            best = i;
    if (best < 0)
        return -1;
    if (T[best].deadline > now_ns)
        now_ns = T[best].deadline;
    T[best].timedout = 1;
    T[best].state = T_READY;
    return best;
}

static int listed(struct thr *t)
{
    int id = (int)(t - T);
    while (t->lp < nlist && (list[t->lp].tid != (u32)id || list[t->lp].at < t->count))
        t->lp++;
    int n = -1;
    if (t->lp < nlist && list[t->lp].at == t->count) {
        n = (int)list[t->lp].next;
        t->lp++; /* there may be another entry for the same point */
    }
    if (n < 0 || n >= nthr || n == id || !runnable(n))
        return -1;
    return n;
}

/* the caller cannot continue: somebody else must */
static void block(void)
{
    struct thr *t = &T[me];
    int n = -1;
    t->count++; /* every decision has its own number */
    S->h[H_BLOCKED]++;
    if (mode == 2) {
        n = listed(t);
    }
    if (n < 0)
        n = pick(me);
    if (n < 0) {
        n = wake_by_time();
        if (n < 0)
            die(ST_DEADLOCK);
        if (n == me) {
            t->state = T_RUN;
            return;
        }
    }
    handover(n);
}

static void slow(void)
{
    struct thr *t = &T[me];
    total_steps();
    if (nlive > 1) {
        int n = -1;
        if (mode == 1)
            n = pick(me);
        else if (mode == 2) {
            n = listed(t);
        }
        if (n >= 0) {
            S->h[H_PREEMPT]++;
            t->state = T_READY;
            handover(n);
            return;
        }
    }
    plan_next(t);
}

/* coverage callbacks of the instrumented code: the hot path */
static inline __attribute__((always_inline)) void point(void)
{
    if (!active || me < 0 || inside)
        return;
    struct thr *t = &T[me];
    if (++t->count < t->next_at)
        return;
    inside = 1;
    int e = errno;
    slow();
    errno = e;
    inside = 0;
}

/* an intercepted call: returns 0 if the simulator must stay out of it */
/* the extension module let go of the interpreter: what another thread might do now */
static __thread int released;
static void meanwhile(void)
{
    int (*ensure)(void) = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Ensure");
    void (*release)(int) = (void (*)(int))dlsym(RTLD_DEFAULT, "PyGILState_Release");
    int (*run)(const char *, void *) = (int (*)(const char *, void *))dlsym(RTLD_DEFAULT, "PyRun_SimpleStringFlags");
    if (!ensure || !release || !run)
        return;
    released = 0;
    int g = ensure();
    run("chance()", 0);
    release(g);
    released = 1;
}

static int enter(void)
{
    if (!active || me < 0 || inside)
        return 0;
    if (released)
        meanwhile();
    inside = 1;
    struct thr *t = &T[me];
    t->count++;
    S->h[H_CALLS]++;
    if (S->h[H_CALLS] > cfg_calls) {
        total_steps();
        die(ST_CALLS);
    }
    if (cfg_kill && S->h[H_CALLS] == cfg_kill) {
        S->h[H_FAULT + 20]++;
        die(ST_CRASH);
    }
    if (nlive > 1) {
        int n = -1;
        if (mode == 1) {
            if (below(1000) < cfg_pio)
                n = pick(me);
        } else if (mode == 2) {
            n = listed(t);
        }
        if (n >= 0) {
            S->h[H_PREEMPT]++;
            t->state = T_READY;
            handover(n);
        }
    }
    return 1;
}
static void leave(void) { inside = 0; }

/* ---- fault rules ---- */

static void fired(struct rule *r)
{
    int i = (int)(r - rules);
    S->h[H_RULE + i]++;
    S->h[H_FAULT + r->kind]++;
    event(OP_FAULT, r->path, i, r->kind, 0);
}

/* decides whether a rule of this kind fires for this call */
static struct rule *match(int op, int path)
{
    struct rule *hit = 0;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (r->op != op || r->kind == K_BUDGET)
            continue;
        if (r->path == P_ANYFILE ? (path < 0 || path >= 1000) : r->path != path)
            continue;
        r->hits++;
        if (hit)
            continue;
        if (r->every) {
            if (r->hits % r->every == 0)
                hit = r;
        } else if (r->hits == r->nth || (r->sticky && r->hits > r->nth))
            hit = r;
    }
    return hit;
}

static struct rule *budget(int path)
{
    if (path < 0 || path >= 1000)
        return 0;
    for (int i = 0; i < nrules; i++)
        if (rules[i].kind == K_BUDGET)
            return &rules[i];
    return 0;
}

/* ---- paths ---- */

#define MAXFD 1024
static short fdpath[MAXFD];

static int path_id(const char *p)
{
    if (!p || !rootlen)
        return P_NONE;
    if (p[0] == '/') {
        if (strncmp(p, root, rootlen) || p[rootlen] != '/')
            return P_NONE;
        p += rootlen + 1;
    }
    while (p[0] == '.' && p[1] == '/')
        p += 2;
    if (strlen(p) >= sizeof names[0])
        return P_NONE;
    for (int i = 0; i < npaths; i++)
        if (!strcmp(names[i], p))
            return i;
    if (npaths >= MAXPATH)
        return P_NONE;
    strcpy(names[npaths], p);
    return npaths++;
}
static int fd_id(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : P_NONE; }

/* ---- start-up ---- */

static u64 num(const char **p)
{
    while (**p == ' ')
        ++*p;
    int neg = **p == '-';
    if (neg)
        ++*p;
    u64 v = 0;
    while (**p >= '0' && **p <= '9')
        v = v * 10 + (u64)(*(*p)++ - '0');
    return neg ? (u64)-v : v;
}
static void word(const char **p, char *out, size_t n)
{
    while (**p == ' ')
        ++*p;
    size_t i = 0;
    while (**p && **p != ' ' && **p != '\n') {
        if (i + 1 < n)
            out[i++] = **p;
        ++*p;
    }
    out[i] = 0;
}

static void key_dtor(void *v);

static void parse(const char *p)
{
    char w[64];
    while (*p) {
        word(&p, w, sizeof w);
        if (!strcmp(w, "seed"))
            seed = num(&p);
        else if (!strcmp(w, "root")) {
            word(&p, root, sizeof root);
            rootlen = strlen(root);
        } else if (!strcmp(w, "stages")) {
            word(&p, stages, sizeof stages);
        } else if (!strcmp(w, "path")) {
            if (npaths < MAXPATH)
                word(&p, names[npaths++], sizeof names[0]);
        } else if (!strcmp(w, "mode"))
            mode = (int)num(&p);
        else if (!strcmp(w, "mean"))
            cfg_mean = num(&p);
        else if (!strcmp(w, "pio"))
            cfg_pio = num(&p);
        else if (!strcmp(w, "bias"))
            cfg_bias = num(&p);
        else if (!strcmp(w, "lifo"))
            cfg_lifo = num(&p);
        else if (!strcmp(w, "steps"))
            cfg_steps = num(&p);
        else if (!strcmp(w, "calls"))
            cfg_calls = num(&p);
        else if (!strcmp(w, "kill"))
            cfg_kill = num(&p);
        else if (!strcmp(w, "ncpu"))
            cfg_ncpu = num(&p);
        else if (!strcmp(w, "clock")) {
            cfg_clock = num(&p);
            cfg_clockstep = num(&p);
        } else if (!strcmp(w, "rule")) {
            /* rule op path kind nth every sticky arg */
            if (nrules < MAXRULES) {
                struct rule *r = &rules[nrules++];
                r->op = (int)num(&p);
                r->path = (int)num(&p);
                r->kind = (int)num(&p);
                r->nth = num(&p);
                r->every = num(&p);
                r->sticky = (int)num(&p);
                r->arg = num(&p);
                r->left = r->arg;
            }
        } else if (!strcmp(w, "sw")) {
            if (nlist < MAXLIST) {
                list[nlist].tid = (u32)num(&p);
                list[nlist].at = num(&p);
                list[nlist].next = (u32)num(&p);
                nlist++;
            }
        }
        while (*p && *p != '\n')
            p++;
        if (*p)
            p++;
    }
}

__attribute__((constructor)) static void init(void)
{
    for (int i = 0; i < MAXFD; i++)
        fdpath[i] = P_NONE;
    fdpath[0] = P_STDIN;
    fdpath[1] = P_STDOUT;
    fdpath[2] = P_STDERR;
    const char *c = getenv("SIM_CONF"), *s = getenv("SIM_SHM");
    if (!c || !s)
        return;
    RAW(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0); /* nothing is left behind by a killed simulator */
    long fd = RAW(SYS_open, s, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0)
        return;
    long m = RAW(SYS_mmap, 0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    RAW(SYS_close, fd);
    if (m < 0 && m > -4096)
        return;
    S = (struct shm *)m;
    list = (struct sw *)RAW(SYS_mmap, 0, MAXLIST * sizeof(struct sw), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    fd = RAW(SYS_open, c, O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0)
        return;
    size_t cap = 4 << 20, n = 0;
    char *buf = (char *)RAW(SYS_mmap, 0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (;;) {
        long k = RAW(SYS_read, fd, buf + n, cap - 1 - n);
        if (k <= 0)
            break;
        n += (size_t)k;
    }
    RAW(SYS_close, fd);
    parse(buf);
    RAW(SYS_munmap, buf, cap);
    u64 x = seed;
    rs[0] = sm(&x);
    rs[1] = sm(&x);
    clkseed = sm(&x);
    rndseed = sm(&x);
    start_ns = now_ns;
    S->h[H_MAGIC] = 0x51D51D;
    S->h[H_DIGEST] = 0xcbf29ce484222325ull;
    pthread_key_create(&key, key_dtor);
    me = 0;
    nthr = 1;
    T[0].state = T_RUN;
    T[0].weight = 1;
    plan_next(&T[0]);
    unsetenv("LD_PRELOAD"); /* children, if any, are not simulated */
    active = 1;
}

__attribute__((destructor)) static void fini(void)
{
    if (active && S && me >= 0) {
        total_steps();
        S->h[H_CLOCK] = now_ns - start_ns;
        if (S->h[H_STATUS] == ST_RUN)
            S->h[H_STATUS] = ST_DONE;
    }
}

/* ---- coverage callbacks ---- */

void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b)
{
    static u32 n;
    if (a == b || *a)
        return;
    for (; a < b; a++)
        *a = ++n;
    if (S)
        S->h[H_GUARDS] = n;
}
void __sanitizer_cov_trace_pc_guard(u32 *g)
{
    if (S && *g < NCOV)
        S->cov[*g] = 1;
    point();
}
#define CB(n)                                             \
    void __sanitizer_cov_load##n(void *p) { (void)p; point(); } \
    void __sanitizer_cov_store##n(void *p) { (void)p; point(); }
CB(1) CB(2) CB(4) CB(8) CB(16)

/* ---- threads ---- */

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

struct start {
    void *(*fn)(void *);
    void *arg;
    int id;
};

static __thread long dtor_round;

static void key_dtor(void *v)
{
    (void)v;
    if (!active || me < 0)
        return;
    /* glibc runs four rounds of destructors; leave in the last one */
    if (++dtor_round < 4) {
        pthread_setspecific(key, (void *)1);
        return;
    }
    struct thr *t = &T[me];
    inside = 1;
    t->count++;
    t->state = T_DONE;
    nlive--;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_JOIN && T[i].joining == me)
            T[i].state = T_READY;
    int n = -1;
    if (mode == 2) {
        n = listed(t);
    }
    if (n < 0)
        n = pick(me);
    if (n < 0)
        n = wake_by_time();
    if (n < 0)
        die(ST_DEADLOCK);
    record(n);
    me = -1;
    give(n);
}

static void *trampoline(void *p)
{
    struct start s = *(struct start *)p;
    me = s.id;
    fwait(&T[me].go);
    free(p);
    pthread_setspecific(key, (void *)1);
    plan_next(&T[me]);
    return s.fn(s.arg);
}

int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    if (!real_create)
        real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!enter())
        return real_create(pt, a, fn, arg);
    struct rule *r = match(OP_THREAD, 0);
    if (r) {
        fired(r);
        event(OP_THREAD, 0, 0, -1, (int)r->arg);
        leave();
        return (int)r->arg;
    }
    if (nthr >= MAXT)
        die(ST_INTERNAL);
    struct start *s = malloc(sizeof *s);
    int id = nthr;
    s->fn = fn;
    s->arg = arg;
    s->id = id;
    struct thr *t = &T[id];
    memset(t, 0, sizeof *t);
    t->state = T_READY;
    t->weight = cfg_bias && mode == 1 ? 1 + below(cfg_bias) : 1;
    int e = real_create(pt, a, trampoline, s);
    if (e) {
        free(s);
        leave();
        return e;
    }
    t->pt = *pt;
    nthr++;
    nlive++;
    S->h[H_THREADS]++;
    if ((u64)nlive > S->h[H_MAXLIVE])
        S->h[H_MAXLIVE] = (u64)nlive;
    event(OP_THREAD, 0, id, 0, 0);
    plan_next(&T[me]);
    leave();
    point();
    return 0;
}

/* calls of the extension module, which is linked to these; the interpreter uses its own */
void *__wrap_PyEval_SaveThread(void)
{
    void *(*real)(void) = (void *(*)(void))dlsym(RTLD_DEFAULT, "PyEval_SaveThread");
    void *t = real();
    if (active && me >= 0 && !inside)
        meanwhile();
    return t;
}

void __wrap_PyEval_RestoreThread(void *t)
{
    void (*real)(void *) = (void (*)(void *))dlsym(RTLD_DEFAULT, "PyEval_RestoreThread");
    released = 0;
    real(t);
}

int pthread_join(pthread_t pt, void **rv)
{
    if (!real_join)
        real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (!enter())
        return real_join(pt, rv);
    int id = -1;
    for (int i = 0; i < nthr; i++)
        if (i != me && T[i].pt == pt && T[i].state != T_FREE)
            id = i;
    if (id >= 0 && T[id].state != T_DONE) {
        T[me].joining = id;
        T[me].state = T_JOIN;
        block();
    }
    int r = real_join(pt, rv);
    if (id >= 0) {
        T[id].pt = 0;
        event(OP_JOIN, 0, id, r, 0);
    }
    leave();
    return r;
}

static long futex_wait(u32 *addr, u32 val, const struct timespec *ts, int absolute, int realtime)
{
    (void)realtime;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val)
        return -EAGAIN;
    struct thr *t = &T[me];
    t->faddr = addr;
    t->fseq = ++fseq;
    t->timedout = 0;
    t->deadline = 0;
    if (ts) {
        u64 d = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
        t->deadline = absolute ? d : now_ns + d;
        if (!t->deadline)
            t->deadline = 1;
    }
    t->state = T_FUTEX;
    block();
    t->faddr = 0;
    t->deadline = 0;
    return t->timedout ? -ETIMEDOUT : 0;
}

static long futex_wake(u32 *addr, long n)
{
    long woken = 0;
    while (woken < n) {
        int b = -1;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == T_FUTEX && T[i].faddr == addr &&
                (b < 0 || (cfg_lifo ? T[i].fseq > T[b].fseq : T[i].fseq < T[b].fseq)))
                b = i;
        if (b < 0)
            break;
        T[b].state = T_READY;
        woken++;
    }
    return woken;
}

static void fill_random(unsigned char *b, size_t n)
{
    for (size_t i = 0; i < n; i++)
        b[i] = (unsigned char)sm(&rndseed);
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom && active) {
        fill_random((unsigned char *)a, (size_t)b);
        return b;
    }
    if (n == SYS_gettid && active)
        return 1000 + me;
    if (n == SYS_futex) {
        int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (enter()) {
            long r;
            if (op == FUTEX_WAIT)
                r = futex_wait((u32 *)a, (u32)c, (struct timespec *)d, 0, 0);
            else if (op == FUTEX_WAIT_BITSET)
                r = futex_wait((u32 *)a, (u32)c, (struct timespec *)d, 1, 0);
            else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
                r = futex_wake((u32 *)a, c);
            else
                r = raw6(n, a, b, c, d, e, f);
            leave();
            return ret(r);
        }
    }
    return ret(raw6(n, a, b, c, d, e, f));
}

/* process and thread numbers end up in panic messages */
pid_t gettid(void) { return active ? 1000 + me : (pid_t)RAW(SYS_gettid); }
pid_t getpid(void) { return active ? 1000 : (pid_t)RAW(SYS_getpid); }
pid_t getppid(void) { return active ? 999 : (pid_t)RAW(SYS_getppid); }

int sched_yield(void)
{
    if (enter()) {
        /* a yield is a strong hint: move on if anyone else can run */
        T[me].count++;
        int n = mode == 1 ? pick(me) : mode == 2 ? listed(&T[me]) : -1;
        if (mode != 1) {
            for (int i = 1; i <= nthr && n < 0; i++) {
                int j = (me + i) % nthr;
                if (j != me && runnable(j))
                    n = j;
            }
        }
        if (n >= 0) {
            T[me].state = T_READY;
            handover(n);
        }
        leave();
    }
    return 0;
}

static int do_sleep(u64 ns)
{
    if (!enter())
        return 0;
    struct thr *t = &T[me];
    t->deadline = now_ns + ns + 1;
    t->state = T_SLEEP;
    t->timedout = 0;
    block();
    t->deadline = 0;
    leave();
    return 1;
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
    if (b)
        b->tv_sec = b->tv_nsec = 0;
    if (do_sleep((u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec))
        return 0;
    return (int)ret(RAW(SYS_nanosleep, a, b));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
    u64 d = (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec;
    if (fl & TIMER_ABSTIME)
        d = d > now_ns ? d - now_ns : 0;
    if (do_sleep(d))
        return 0;
    return (int)-RAW(SYS_clock_nanosleep, c, fl, a, b);
}

/* ---- time, randomness, processors ---- */

static u64 tick(void)
{
    switch (cfg_clock) {
    case 0: /* regular */
        now_ns += cfg_clockstep;
        break;
    case 1: /* stands still */
        break;
    case 2: /* mostly slow, sometimes hours ahead */
        now_ns += sm(&clkseed) % 7 == 0 ? (sm(&clkseed) % 5000) * 1000000000ull : sm(&clkseed) % 50;
        break;
    case 3: /* erratic, from nothing to seconds */
        now_ns += sm(&clkseed) % (sm(&clkseed) % 3 ? 3 : 4000000000ull);
        break;
    default: /* enormous steps */
        now_ns += 1000000000ull * (1 + sm(&clkseed) % 100000000ull);
        if (now_ns > (1ull << 62))
            now_ns = 1ull << 62;
    }
    return now_ns;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!active || me < 0 || inside)
        return (int)ret(RAW(SYS_clock_gettime, c, ts));
    enter();
    u64 t = tick();
    if (c == CLOCK_REALTIME && cfg_clock >= 2) /* the wall clock may also go back */
        t -= sm(&clkseed) % 1000000000000ull;
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    leave();
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (!active)
        return ret(RAW(SYS_getrandom, b, n, f));
    fill_random(b, n);
    return (ssize_t)n;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s)
{
    if (!active) {
        long r = RAW(SYS_sched_getaffinity, p, n, s);
        return r < 0 ? (int)ret(r) : 0;
    }
    if (!cfg_ncpu) { /* it cannot be told */
        errno = EPERM;
        return -1;
    }
    memset(s, 0, n);
    for (u64 i = 0; i < cfg_ncpu && i < n * 8; i++)
        CPU_SET_S(i, n, s);
    return 0;
}
long sysconf(int name)
{
    static long (*real)(int);
    if (active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF))
        return cfg_ncpu ? (long)cfg_ncpu : -1;
    if (!real)
        real = dlsym(RTLD_NEXT, "sysconf");
    return real(name);
}

/* ---- files ---- */

/* another process is at work on the first file: it gets the content of a stage, in place or by renaming */
static void swap_file(u64 arg)
{
    char from[600], to[700], tmp[700];
    strcpy(from, stages);
    strcat(from, "/stage0");
    from[strlen(from) - 1] += (char)(arg & 15);
    strcpy(to, root);
    strcat(to, "/");
    strcat(to, names[0]);
    strcpy(tmp, to);
    strcat(tmp, ".swap");
    int ren = arg >= 16;
    long in = RAW(SYS_open, from, O_RDONLY, 0);
    long out = RAW(SYS_open, ren ? tmp : to, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    static char buf[65536];
    long n;
    if (in < 0 || out < 0)
        die(ST_INTERNAL);
    while ((n = RAW(SYS_read, in, buf, sizeof buf)) > 0)
        RAW(SYS_write, out, buf, n);
    RAW(SYS_close, in);
    RAW(SYS_close, out);
    if (ren)
        RAW(SYS_rename, tmp, to);
}

static int fault_open(int id, int flags, int *out)
{
    struct rule *r = match(OP_OPEN, id);
    if (!r && (flags & (O_WRONLY | O_RDWR)))
        r = match(OP_CREAT, id);
    if (!r)
        return 0;
    fired(r);
    if (r->kind == K_CRASH)
        die(ST_CRASH);
    if (r->kind == K_SWAP) {
        swap_file(r->arg);
        return 0;
    }
    if (r->kind == K_CRASHAFTER) {
        *out = -2;
        return 1;
    }
    event(OP_OPEN, id, flags, -1, (int)r->arg);
    errno = (int)r->arg;
    *out = -1;
    return 1;
}

static int do_open(int dfd, const char *p, int flags, mode_t m)
{
    if (active && p && !strncmp(p, "/proc/self/cgroup", 17)) {
        errno = ENOENT;
        return -1;
    }
    int id = active ? path_id(p) : P_NONE;
    if (id < 0 || !enter())
        return (int)ret(RAW(SYS_openat, dfd, p, flags, m));
    int o, crash = 0;
    if (fault_open(id, flags, &o)) {
        if (o == -1) {
            leave();
            return -1;
        }
        crash = 1;
    }
    long r = RAW(SYS_openat, dfd, p, flags, m);
    if (r >= 0 && r < MAXFD)
        fdpath[r] = (short)id;
    event(OP_OPEN, id, flags, r >= 0 ? 0 : -1, r < 0 ? (int)-r : 0);
    if (crash)
        die(ST_CRASH);
    leave();
    return (int)ret(r);
}
#define MODE(flags, m)                              \
    if ((flags) & (O_CREAT | O_TMPFILE)) {          \
        va_list ap;                                 \
        va_start(ap, flags);                        \
        m = (mode_t)va_arg(ap, int);                \
        va_end(ap);                                 \
    }
int open(const char *p, int flags, ...)
{
    mode_t m = 0;
    MODE(flags, m)
    return do_open(AT_FDCWD, p, flags, m);
}
int open64(const char *p, int flags, ...)
{
    mode_t m = 0;
    MODE(flags, m)
    return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m);
}
int openat(int d, const char *p, int flags, ...)
{
    mode_t m = 0;
    MODE(flags, m)
    return do_open(d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...)
{
    mode_t m = 0;
    MODE(flags, m)
    return do_open(d, p, flags | O_LARGEFILE, m);
}
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd)
{
    int id = fd_id(fd);
    if (id != P_NONE && enter()) {
        struct rule *r = match(OP_CLOSE, id);
        event(OP_CLOSE, id, 0, 0, 0);
        if (r) {
            fired(r);
            if (r->kind == K_CRASH)
                die(ST_CRASH);
        }
        fdpath[fd] = P_NONE;
        long x = RAW(SYS_close, fd);
        if (r && r->kind == K_CRASHAFTER)
            die(ST_CRASH);
        leave();
        return (int)ret(x);
    }
    if (fd >= 0 && fd < MAXFD)
        fdpath[fd] = P_NONE;
    return (int)ret(RAW(SYS_close, fd));
}

/* one read or write: -1 errno set, else the length that may be transferred */
static int64_t rw_fault(int op, int id, int64_t len, int *crash)
{
    struct rule *r = match(op, id);
    *crash = 0;
    /* interruptions end, even where several rules ask for them */
    if (r && r->kind == K_ERR && r->arg == EINTR && ++T[me].eintr > 8)
        r = NULL;
    if (!r || r->kind != K_ERR || r->arg != EINTR)
        T[me].eintr = 0;
    if (!r)
        return len;
    switch (r->kind) {
    case K_ERR:
        fired(r);
        errno = (int)r->arg;
        event(op, id, len, -1, (int)r->arg);
        return -1;
    case K_SHORT:
        if (len > (int64_t)r->arg && r->arg) {
            fired(r);
            return (int64_t)r->arg;
        }
        return len;
    case K_EOF:
        fired(r);
        return 0;
    case K_SWAP:
        fired(r);
        swap_file(r->arg);
        return len;
    case K_HANG: /* nothing ever arrives */
        fired(r);
        T[me].state = T_SLEEP;
        T[me].deadline = 0;
        block();
        return 0;
    case K_CRASH:
        fired(r);
        die(ST_CRASH);
        return -1;
    case K_TORN:
        fired(r);
        *crash = 1;
        return len > (int64_t)r->arg ? (int64_t)r->arg : len;
    case K_CRASHAFTER:
        fired(r);
        *crash = 1;
        return len;
    }
    return len;
}

static ssize_t do_read(int fd, void *b, size_t n, off_t off, int pos)
{
    int id = fd_id(fd);
    if (id == P_NONE || !enter())
        return pos ? ret(RAW(SYS_pread64, fd, b, n, off)) : ret(RAW(SYS_read, fd, b, n));
    int crash;
    int64_t k = rw_fault(OP_READ, id, (int64_t)n, &crash);
    if (k < 0) {
        leave();
        return -1;
    }
    long r = 0;
    if (k > 0 || n == 0)
        r = pos ? RAW(SYS_pread64, fd, b, k, off) : RAW(SYS_read, fd, b, k);
    event(OP_READ, id, (int64_t)n, r < 0 ? -1 : r, r < 0 ? (int)-r : 0);
    if (crash)
        die(ST_CRASH);
    leave();
    return ret(r);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c)
{
    for (int i = 0; i < c; i++)
        if (v[i].iov_len)
            return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return do_read(fd, 0, 0, 0, 0);
}

static ssize_t do_write(int fd, const struct iovec *v, int c, off_t off, int pos)
{
    int id = fd_id(fd);
    int64_t n = 0;
    for (int i = 0; i < c; i++)
        n += (int64_t)v[i].iov_len;
    if (id == P_NONE || !enter()) {
        if (pos)
            return ret(RAW(SYS_pwrite64, fd, v[0].iov_base, v[0].iov_len, off));
        return ret(RAW(SYS_writev, fd, v, c));
    }
    int crash;
    int64_t k = rw_fault(OP_WRITE, id, n, &crash);
    if (k < 0) {
        leave();
        return -1;
    }
    struct rule *q = budget(id);
    if (q) {
        if (q->left == 0 && n > 0) {
            fired(q);
            event(OP_WRITE, id, n, -1, ENOSPC);
            leave();
            errno = ENOSPC;
            return -1;
        }
        if (k > (int64_t)q->left)
            k = (int64_t)q->left;
    }
    int64_t done = 0;
    long r = 0;
    for (int i = 0; i < c && done < k; i++) {
        int64_t l = (int64_t)v[i].iov_len < k - done ? (int64_t)v[i].iov_len : k - done;
        if (!l)
            continue;
        r = pos ? RAW(SYS_pwrite64, fd, v[i].iov_base, l, off + done) : RAW(SYS_write, fd, v[i].iov_base, l);
        if (r < 0)
            break;
        done += r;
        if (r < l)
            break;
    }
    if (q)
        q->left -= (u64)done < q->left ? (u64)done : q->left;
    if (done > 0)
        r = done;
    event(OP_WRITE, id, n, r < 0 ? -1 : r, r < 0 ? (int)-r : 0);
    if (crash)
        die(ST_CRASH);
    leave();
    return ret(r);
}
ssize_t write(int fd, const void *b, size_t n)
{
    struct iovec v = {(void *)b, n};
    return do_write(fd, &v, 1, 0, 0);
}
ssize_t writev(int fd, const struct iovec *v, int c) { return do_write(fd, v, c, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    struct iovec v = {(void *)b, n};
    return do_write(fd, &v, 1, o, 1);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    struct iovec v = {(void *)b, n};
    return do_write(fd, &v, 1, o, 1);
}

/* calls with a simple error-or-crash outcome */
static int simple(int op, int id, int64_t arg, int *crash)
{
    struct rule *r = match(op, id);
    *crash = 0;
    if (!r)
        return 0;
    fired(r);
    if (r->kind == K_CRASH)
        die(ST_CRASH);
    if (r->kind == K_CRASHAFTER || r->kind == K_TORN) {
        *crash = 1;
        return 0;
    }
    event(op, id, arg, -1, (int)r->arg);
    errno = (int)r->arg;
    return -1;
}
#define SIMPLE(op, id, arg, call)                                        \
    do {                                                                 \
        int crash_;                                                      \
        if (simple(op, id, arg, &crash_)) {                              \
            leave();                                                     \
            return -1;                                                   \
        }                                                                \
        long r_ = (call);                                                \
        event(op, id, arg, r_ < 0 ? -1 : 0, r_ < 0 ? (int)-r_ : 0);      \
        if (crash_)                                                      \
            die(ST_CRASH);                                               \
        leave();                                                         \
        return ret(r_);                                                  \
    } while (0)

static off_t do_seek(int fd, off_t o, int wh)
{
    int id = fd_id(fd);
    if (id == P_NONE || !enter())
        return ret(RAW(SYS_lseek, fd, o, wh));
    SIMPLE(OP_SEEK, id, o * 4 + wh, RAW(SYS_lseek, fd, o, wh));
}
off_t lseek(int fd, off_t o, int wh) { return do_seek(fd, o, wh); }
off64_t lseek64(int fd, off64_t o, int wh) { return do_seek(fd, o, wh); }

static int do_trunc(int fd, off_t n)
{
    int id = fd_id(fd);
    if (id == P_NONE || !enter())
        return (int)ret(RAW(SYS_ftruncate, fd, n));
    SIMPLE(OP_TRUNC, id, n, RAW(SYS_ftruncate, fd, n));
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }

static int do_sync(int fd, int nr)
{
    int id = fd_id(fd);
    if (id == P_NONE || !enter())
        return (int)ret(RAW(nr, fd));
    SIMPLE(OP_SYNC, id, 0, RAW(nr, fd));
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

int rename(const char *a, const char *b)
{
    int ia = active ? path_id(a) : P_NONE, ib = active ? path_id(b) : P_NONE;
    if ((ia < 0 && ib < 0) || !enter())
        return (int)ret(RAW(SYS_rename, a, b));
    SIMPLE(OP_RENAME, ib >= 0 ? ib : ia, ia, RAW(SYS_rename, a, b));
}
int unlink(const char *a)
{
    int id = active ? path_id(a) : P_NONE;
    if (id < 0 || !enter())
        return (int)ret(RAW(SYS_unlink, a));
    SIMPLE(OP_UNLINK, id, 0, RAW(SYS_unlink, a));
}

/* let callers fall back to read and write */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f)
{
    if (active) {
        errno = ENOSYS;
        return -1;
    }
    return ret(RAW(SYS_copy_file_range, a, b, c, d, e, f));
}
ssize_t sendfile(int a, int b, off_t *c, size_t d)
{
    if (active) {
        errno = ENOSYS;
        return -1;
    }
    return ret(RAW(SYS_sendfile, a, b, c, d));
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { return sendfile(a, b, c, d); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f)
{
    if (active) {
        errno = ENOSYS;
        return -1;
    }
    return ret(RAW(SYS_splice, a, b, c, d, e, f));
}

/* a failing stat: path-based ones only, as used to test for existence */
int statx(int d, const char *p, int fl, unsigned m, struct statx *b)
{
    const char *volatile q = p; /* declared nonnull, but std probes with a null pointer */
    int id = active && q && q[0] ? path_id(q) : P_NONE;
    if (id < 0 || !enter())
        return (int)ret(RAW(SYS_statx, d, p, fl, m, b));
    SIMPLE(OP_STAT, id, 0, RAW(SYS_statx, d, p, fl, m, b));
}

/* ---- allocation ---- */

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
extern size_t malloc_usable_size(void *);

static int deny(size_t n)
{
    if (!active || me < 0 || inside || n < 1024)
        return 0;
    S->h[H_NALLOC]++;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (r->op != OP_ALLOC || n < r->arg)
            continue;
        r->hits++;
        if (r->hits == r->nth || (r->sticky && r->hits > r->nth)) {
            S->h[H_RULE + i]++;
            S->h[H_FAULT + 16]++;
            return 1;
        }
    }
    if (n > S->h[H_BIGALLOC])
        S->h[H_BIGALLOC] = n;
    return 0;
}

/* large blocks in use */
static long live;

static void *gain(void *p)
{
    long n = p ? (long)malloc_usable_size(p) : 0;
    if (n >= 2048) {
        long l = __atomic_add_fetch(&live, n, __ATOMIC_RELAXED);
        if (active && S && l > (long)S->h[H_PEAK])
            S->h[H_PEAK] = (u64)l;
    }
    return p;
}
static void loss(long n)
{
    if (n >= 2048)
        __atomic_sub_fetch(&live, n, __ATOMIC_RELAXED);
}
void *malloc(size_t n)
{
    if (deny(n)) {
        errno = ENOMEM;
        return 0;
    }
    return gain(__libc_malloc(n));
}
void *calloc(size_t a, size_t b)
{
    if (deny(a * b)) {
        errno = ENOMEM;
        return 0;
    }
    return gain(__libc_calloc(a, b));
}
void *realloc(void *p, size_t n)
{
    if (deny(n)) {
        errno = ENOMEM;
        return 0;
    }
    long old = p ? (long)malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || !n)
        loss(old);
    return gain(q);
}
void free(void *p)
{
    if (p)
        loss((long)malloc_usable_size(p));
    __libc_free(p);
}
int posix_memalign(void **p, size_t a, size_t n)
{
    if (deny(n))
        return ENOMEM;
    *p = gain(__libc_memalign(a, n));
    return *p ? 0 : ENOMEM;
}
void *aligned_alloc(size_t a, size_t n)
{
    if (deny(n)) {
        errno = ENOMEM;
        return 0;
    }
    return gain(__libc_memalign(a, n));
}

/* ---- duplicated descriptors keep their identity ---- */

int dup(int fd)
{
    long r = RAW(SYS_dup, fd);
    if (r >= 0 && r < MAXFD)
        fdpath[r] = (short)fd_id(fd);
    return (int)ret(r);
}
int dup2(int fd, int to)
{
    long r = RAW(SYS_dup2, fd, to);
    if (r >= 0 && r < MAXFD)
        fdpath[r] = (short)fd_id(fd);
    return (int)ret(r);
}
static int do_fcntl(int fd, int cmd, long arg)
{
    long r = RAW(SYS_fcntl, fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD)
        fdpath[r] = (short)fd_id(fd);
    return (int)ret(r);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
