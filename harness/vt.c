/* vt: executes case files against the real library and records what happens.
 *
 * usage: vt CASEFILE  (result on stdout)
 *
 * Each case runs in a forked child, which writes its trace to memory shared with the parent; the
 * parent adds how the child ended. The monitors built in here abort the child with a MONITOR line:
 *   - allocator contract (tracking allocator: owner, liveness, contexts, forms of calls)
 *   - direct heap use by the library
 *   - finalizers (exactly once, right context), heap reachability after collections
 *   - thread positions against instruction boundaries
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "arena.h"
#include "array.h"
#include "detail.h"
#include "dict.h"
#include "lexer.h"
#include "pos.h"
#include "tiny.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define VT_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#if __has_feature(address_sanitizer)
#define VT_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#if __has_feature(thread_sanitizer)
#define VT_TSAN 1
#endif
#endif

#ifndef TRACE_CAP
#define TRACE_CAP (64u << 20)
#endif

/* ------------------------------------------------------------------ trace */

typedef struct Trace {
    char *buf;
    size_t cap;
    size_t *len;
    size_t ownLen;
} Trace;

static Trace mainTrace;
static __thread Trace *tr = NULL;

static void TrRaw(const char *s, size_t n) {
    Trace *t = tr ? tr : &mainTrace;
    if (*t->len + n + 64 > t->cap) {
        static const char full[] = "\nTRACE-FULL\n";
        if (*t->len + sizeof(full) <= t->cap) {
            memcpy(t->buf + *t->len, full, sizeof(full) - 1);
            *t->len += sizeof(full) - 1;
        }
        _exit(97);
    }
    memcpy(t->buf + *t->len, s, n);
    *t->len += n;
}

static void Tr(const char *fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
    TrRaw(buf, n);
}

static void TrEsc(const char *s, size_t n) {
    static const char hex[] = "0123456789ABCDEF";
    char buf[512];
    size_t k = 0;
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = s[i];
        if (k + 4 > sizeof(buf)) {
            TrRaw(buf, k);
            k = 0;
        }
        if (c > 32 && c < 127 && c != '%' && c != '"') {
            buf[k++] = c;
        } else {
            buf[k++] = '%';
            buf[k++] = hex[c >> 4];
            buf[k++] = hex[c & 15];
        }
    }
    TrRaw(buf, k);
}

static void Monitor(const char *fmt, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    Tr("\nMONITOR %s\n", buf);
    fprintf(stderr, "MONITOR %s\n", buf);
    _exit(98);
}

static void Bad(const char *what) {
    Tr("\nHARNESS-ERROR %s\n", what);
    _exit(99);
}

/* -------------------------------------------------------------- allocator */

#define BLK_MAGIC 0x7ab1e5b10c4a11ceull
#define BLK_FREED 0xdeadb10cdeadb10cull

typedef struct Ctx {
    int id;
    bool isState;
    bool dead;      /* its owner has been destroyed */
    bool forbidden; /* must not be used at the moment */
    size_t live, liveBytes, allocs, frees, reallocs, peakBytes, peakLive;
    struct Blk *head;
} Ctx;

typedef struct Blk {
    uint64_t magic;
    Ctx *ctx;
    size_t size;
    struct Blk *prev, *next;
    unsigned char *mem;
} Blk;

/* A packing allocator: no gap between blocks, which are multiples of 8 bytes; the block of that size that was freed last is taken first. */
#define PACK_SIZE ((size_t)48 << 20)
#define PACK_CLASS 64
static bool optPack = false;
static unsigned char *packMem;
static Blk **packAt;           /* block that starts at a granule */
static size_t packTop;
static uint32_t *packNext, packFirst[PACK_CLASS];
static pthread_mutex_t packLock = PTHREAD_MUTEX_INITIALIZER;

static unsigned char *PackAlloc(Blk *b, size_t size) {
    size_t n = (size + 7) / 8, at;
    if (n == 0) n = 1;
    pthread_mutex_lock(&packLock);
    if (!packMem) {
        packMem = mmap(NULL, PACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        packAt = mmap(NULL, PACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        packNext = mmap(NULL, PACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        packTop = 1;
    }
    if (n < PACK_CLASS && packFirst[n]) {
        at = packFirst[n];
        packFirst[n] = packNext[at];
    } else {
        at = packTop;
        packTop += n;
        if (packTop * 8 > PACK_SIZE) Bad("the packing allocator is full");
    }
    packAt[at] = b;
    pthread_mutex_unlock(&packLock);
#ifdef VT_ASAN
    __asan_unpoison_memory_region(packMem + at * 8, size);
#endif
    return packMem + at * 8;
}

static void PackFree(Blk *b) {
    size_t at = (b->mem - packMem) / 8, n = (b->size + 7) / 8;
    if (n == 0) n = 1;
    pthread_mutex_lock(&packLock);
    packAt[at] = NULL;
    if (n < PACK_CLASS) {
        packNext[at] = packFirst[n];
        packFirst[n] = (uint32_t)at;
    }
#ifdef VT_ASAN
    __asan_poison_memory_region(b->mem, n * 8);
#endif
    pthread_mutex_unlock(&packLock);
}

static int optFill = 0xCB;
static int optPad = 0; /* extra bytes in front of blocks: changes placement */
static size_t optLimit = (size_t)256 << 20;

static void *BlkAlloc(Ctx *c, size_t size) {
    Blk *b = malloc(sizeof(Blk) + (optPack ? 0 : size));
    if (!b) Bad("out of memory");
    b->size = size;
    b->mem = optPack ? PackAlloc(b, size) : (unsigned char *)(b + 1);
    b->magic = BLK_MAGIC;
    b->ctx = c;
    b->prev = NULL;
    b->next = c->head;
    if (c->head) c->head->prev = b;
    c->head = b;
    c->live++;
    c->liveBytes += size;
    if (c->liveBytes > c->peakBytes) c->peakBytes = c->liveBytes;
    if (c->live > c->peakLive) c->peakLive = c->live;
    if (c->liveBytes > optLimit) Monitor("memory limit of the harness exceeded (%zu bytes live)", c->liveBytes);
#ifndef VT_MSAN
    memset(b->mem, optFill, size);
#endif
    return b->mem;
}

static void BlkFree(Ctx *c, Blk *b) {
    if (b->prev) b->prev->next = b->next;
    else c->head = b->next;
    if (b->next) b->next->prev = b->prev;
    c->live--;
    c->liveBytes -= b->size;
    b->magic = BLK_FREED;
#ifndef VT_MSAN
    memset(b->mem, 0xDD, b->size);
#endif
    if (optPack) PackFree(b);
    free(b);
}

static Blk *BlkCheck(Ctx *c, void *p, const char *what) {
    /* A linear search would be safe even for wild pointers, but the sanitizers report those. */
    Blk *b = NULL;
    if (optPack) {
        size_t off = (size_t)((unsigned char *)p - packMem);
        if (off % 8 == 0 && off / 8 < packTop) b = packAt[off / 8];
        if (!b) Monitor("alloc: %s of a pointer that is not the start of a live block (context %d)", what, c->id);
    } else {
        b = (Blk *)p - 1;
    }
    if (b->magic != BLK_MAGIC)
        Monitor("alloc: %s of a pointer that is not the start of a live block (context %d)", what, c->id);
    if (b->ctx != c)
        Monitor("alloc: %s through context %d of a block of context %d", what, c->id, b->ctx->id);
    return b;
}

static void *VtAlloc(void *ptr, size_t size, void *userdata) {
    Ctx *c = userdata;
    if (!c) Monitor("alloc: called without the user data of its context");
    if (c->dead) Monitor("alloc: context %d used after its owner was destroyed", c->id);
    if (c->forbidden) Monitor("alloc: context %d of the compiled state used while running", c->id);
    if (!ptr) {
        if (size == 0) Monitor("alloc: called with NULL and size 0 (context %d)", c->id);
        if (size > ((size_t)1 << 40)) Monitor("alloc: absurd size %zu", size);
        c->allocs++;
        return BlkAlloc(c, size);
    }
    if (size == 0) {
        Blk *b = BlkCheck(c, ptr, "free");
        c->frees++;
        BlkFree(c, b);
        return NULL;
    }
    Blk *b = BlkCheck(c, ptr, "realloc");
    c->reallocs++;
    void *n = BlkAlloc(c, size);
#ifdef VT_MSAN
    __msan_copy_shadow(n, ptr, b->size < size ? b->size : size);
    memcpy(n, ptr, b->size < size ? b->size : size);
#else
    memcpy(n, ptr, b->size < size ? b->size : size);
#endif
    BlkFree(c, b);
    return n;
}

static bool directAllowed = false;
static void Direct(const char *f) {
    if (!directAllowed) Monitor("alloc: the library called %s instead of the supplied allocator", f);
}
static long directLive = 0; /* blocks of the C heap the library holds (default allocator) */
void *vt_direct_malloc(size_t n) {
    Direct("malloc");
    void *p = malloc(n);
    if (p && n) memset(p, 0xA5, n);
    directLive += p != NULL;
    return p;
}
void *vt_direct_calloc(size_t n, size_t m) {
    Direct("calloc");
    void *p = calloc(n, m);
    directLive += p != NULL;
    return p;
}
void *vt_direct_realloc(void *p, size_t n) {
    Direct("realloc");
    void *q = realloc(p, n);
    if (!p && q) ++directLive;
    else if (p && !q && n == 0) --directLive;
    return q;
}
void vt_direct_free(void *p) {
    if (p) {
        Direct("free");
        --directLive;
    }
    free(p);
}
char *vt_direct_strdup(const char *s) {
    Direct("strdup");
    char *p = strdup(s);
    directLive += p != NULL;
    return p;
}

/* ------------------------------------------------------------------ world */

#define MAXS 16
#define MAXT 64
#define MAXR 64
#define MAXN 65536

typedef struct VState {
    Tiny_State *s;
    Ctx ctx;
    bool boundValid;
    unsigned char *bound; /* instruction boundaries */
    int boundLen;
} VState;

typedef struct VThread {
    Tiny_StateThread *t;
    int sidx;
    Ctx ctx;
    int idx;
    bool due;   /* the cycle being executed must end with a collection */
    int gcMode; /* 0 default, 1 every cycle, 2 random, 3 never */
    uint64_t rng;
    bool checkPc, heapCheck;
    size_t steps, gcs;
    int lastObjs;
    int depth;
    int ticks;
    int more;
    bool inGcCheck;
} VThread;

static VState S[MAXS];
static VThread T[MAXT];
static Tiny_Value R[MAXR];

typedef struct Nat {
    uint32_t magic;
    int id;
    int owner;
    bool finalized;
} Nat;

#define NAT_MAGIC 0x4e415431u
static Nat nats[MAXN];
static int natCount = 0;
static size_t finCount = 0;

static uint64_t NextRand(uint64_t *s) {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    return *s;
}

static void ApplyGc(VThread *v) {
    Tiny_StateThread *t = v->t;
    switch (v->gcMode) {
        case 1: t->maxNumObjects = 0; break;
        case 2: t->maxNumObjects = (NextRand(&v->rng) % 4 == 0) ? 0 : 1 << 30; break;
        case 3: t->maxNumObjects = 1 << 30; break;
        case 4: t->maxNumObjects = (NextRand(&v->rng) % 64 == 0) ? 0 : 1 << 30; break;
        default: break;
    }
    v->due = t->maxNumObjects == 0;
}

static VThread *Vt(Tiny_StateThread *thread) {
    VThread *v = thread->userdata;
    if (!v || v->t != thread) Monitor("foreign function called with a thread that is not the calling one");
    if (thread->state != S[v->sidx].s) Monitor("thread refers to another state");
    return v;
}

/* ------------------------------------------------------- value rendering */

typedef struct Seen {
    const void *p[2048];
    int n;
} Seen;

static void NatFinalize(Tiny_Context *ctx, void *addr);
static void BoxProtect(void *addr);
static void BoxFinalize(Tiny_Context *ctx, void *addr);
static size_t anonMade = 0, anonFin = 0;
static void AnonFinalize(Tiny_Context *ctx, void *addr) {
    if (addr) Monitor("finalize: an object without an address got one");
    if (ctx->alloc != VtAlloc) Monitor("finalize: wrong context");
    __atomic_fetch_add(&anonFin, 1, __ATOMIC_RELAXED);
}
static const Tiny_NativeProp AnonProp = {"vtanon", NULL, AnonFinalize};
static const Tiny_NativeProp InertProp = {"vtinert", NULL, NULL};
static const Tiny_NativeProp NatProp = {"vtnat", NULL, NatFinalize};
static const Tiny_NativeProp BoxProp = {"vtbox", BoxProtect, BoxFinalize};
/* a box whose storage belongs to the host: nothing to finalise */
static const Tiny_NativeProp HostBoxProp = {"vthostbox", BoxProtect, NULL};
typedef struct Box {
    Tiny_Value v;
} Box;
static Box hostBoxes[20000];
static int boxCount = 0;
static bool IsBoxProp(const Tiny_NativeProp *p) { return p == &BoxProp || p == &HostBoxProp; }

static int SeenIdx(Seen *s, const void *p, bool *isNew) {
    for (int i = 0; i < s->n; ++i)
        if (s->p[i] == p) {
            *isNew = false;
            return i;
        }
    *isNew = true;
    if (s->n < 2048) s->p[s->n] = p;
    else return 2048;
    return s->n++;
}

static bool IsArrayProp(const Tiny_NativeProp *p) { return p && p->name && strcmp(p->name, "array") == 0; }
static bool IsDictProp(const Tiny_NativeProp *p) { return p && p->name && strcmp(p->name, "dict") == 0; }

static void Ser(Tiny_Value v, Seen *seen, int depth) {
    bool isNew;
    switch (v.type) {
        case TINY_VAL_NULL: Tr("n"); break;
        case TINY_VAL_BOOL: Tr("b%d", Tiny_ToBool(v) ? 1 : 0); break;
        case TINY_VAL_INT: Tr("i%" PRId64, (int64_t)Tiny_ToInt(v)); break;
        case TINY_VAL_FLOAT: {
            double d = Tiny_ToFloat(v);
            uint64_t u;
            if (d != d) { Tr("fnan"); break; }
            memcpy(&u, &d, 8);
            Tr("f%016" PRIx64, u);
        } break;
        case TINY_VAL_STRING:
        case TINY_VAL_CONST_STRING: {
            const char *p = Tiny_ToString(v);
            size_t n = Tiny_StringLen(v);
            Tr("s\"");
            TrEsc(p, n);
            Tr("\"");
            if (p[n] != 0) Tr("!unterminated");
        } break;
        case TINY_VAL_LIGHT_NATIVE: Tr("L%" PRIx64, (uint64_t)(uintptr_t)Tiny_ToAddr(v)); break;
        case TINY_VAL_STRUCT: {
            int k = SeenIdx(seen, v.obj, &isNew);
            Tr("S#%d", k);
            if (isNew && depth < 200) {
                Tr("{");
                for (int i = 0; i < v.obj->ostruct.n; ++i) {
                    if (i) Tr(",");
                    Ser(Tiny_GetField(v, i), seen, depth + 1);
                }
                Tr("}");
            }
        } break;
        case TINY_VAL_NATIVE: {
            const Tiny_NativeProp *prop = Tiny_GetProp(v);
            void *addr = Tiny_ToAddr(v);
            if (prop == &NatProp) {
                Nat *n = addr;
                if (n->magic != NAT_MAGIC || n->finalized) Monitor("a finalized native object is still reachable");
                Tr("N%d", n->id);
            } else if (IsBoxProp(prop)) {
                int k = SeenIdx(seen, addr, &isNew);
                Tr("B#%d", k);
                if (isNew && depth < 200) {
                    Tr("(");
                    Ser(((Box *)addr)->v, seen, depth + 1);
                    Tr(")");
                }
            } else if (IsArrayProp(prop)) {
                int k = SeenIdx(seen, addr, &isNew);
                Tr("A#%d", k);
                if (isNew && depth < 200) {
                    Tr("[");
                    int len = ArrayLen(addr);
                    for (int i = 0; i < len; ++i) {
                        if (i) Tr(",");
                        Ser(*ArrayGet(addr, i), seen, depth + 1);
                    }
                    Tr("]");
                }
            } else if (IsDictProp(prop)) {
                Tr("D#%d", SeenIdx(seen, addr, &isNew));
            } else {
                Tr("O'%s'", prop && prop->name ? prop->name : "");
            }
        } break;
        default: Monitor("value with an impossible type %d", (int)v.type);
    }
}

static void SerVal(Tiny_Value v) {
    Seen seen;
    seen.n = 0;
    Ser(v, &seen, 0);
}

/* ------------------------------------------------- heap reachability walk */

typedef struct PSet {
    const void **tab;
    size_t cap, n;
} PSet;

static bool PAdd(PSet *s, const void *p) {
    if (s->n * 2 >= s->cap) {
        size_t ncap = s->cap ? s->cap * 2 : 256;
        const void **nt = calloc(ncap, sizeof(void *));
        for (size_t i = 0; i < s->cap; ++i)
            if (s->tab[i]) {
                size_t h = ((uintptr_t)s->tab[i] >> 4) * 0x9E3779B97F4A7C15ull % ncap;
                while (nt[h]) h = (h + 1) % ncap;
                nt[h] = s->tab[i];
            }
        free(s->tab);
        s->tab = nt;
        s->cap = ncap;
    }
    size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull % s->cap;
    while (s->tab[h]) {
        if (s->tab[h] == p) return false;
        h = (h + 1) % s->cap;
    }
    s->tab[h] = p;
    s->n++;
    return true;
}

static void Reach(PSet *s, Tiny_Value v) {
    if (v.type != TINY_VAL_STRING && v.type != TINY_VAL_NATIVE && v.type != TINY_VAL_STRUCT) return;
    if (!PAdd(s, v.obj)) return;
    if (v.type == TINY_VAL_STRUCT) {
        for (int i = 0; i < v.obj->ostruct.n; ++i) Reach(s, v.obj->ostruct.fields[i]);
    } else if (v.type == TINY_VAL_NATIVE) {
        const Tiny_NativeProp *p = Tiny_GetProp(v);
        void *a = Tiny_ToAddr(v);
        if (IsBoxProp(p)) Reach(s, ((Box *)a)->v);
        else if (IsArrayProp(p)) {
            for (int i = 0; i < ArrayLen(a); ++i) Reach(s, *ArrayGet(a, i));
        } else if (IsDictProp(p)) {
            Dict *d = a;
            for (int i = 0; i < ArrayLen(&d->keys); ++i) {
                Tiny_Value k = *ArrayGet(&d->keys, i);
                if (!Tiny_IsNull(k)) {
                    Reach(s, k);
                    Reach(s, *ArrayGet(&d->values, i));
                }
            }
        }
    }
}

/* Number of heap objects reachable from the thread's roots. */
static size_t Reachable(Tiny_StateThread *t) {
    PSet s = {0};
    Reach(&s, t->retVal);
    for (int i = 0; i < t->sp; ++i) Reach(&s, t->stack[i]);
    if (t->globalVars)
        for (int i = 0; i < t->state->numGlobalVars; ++i) Reach(&s, t->globalVars[i]);
    size_t n = s.n;
    free(s.tab);
    return n;
}

/* --------------------------------------------------------------- stepping */

static void ComputeBounds(VState *vs) {
    if (vs->boundValid) return;
    free(vs->bound);
    vs->boundLen = 1 << 16;
    vs->bound = calloc(vs->boundLen, 1);
    int pc = 0;
    char buf[512];
    while (pc >= 0) {
        while (pc >= vs->boundLen) {
            vs->bound = realloc(vs->bound, vs->boundLen * 2);
            memset(vs->bound + vs->boundLen, 0, vs->boundLen);
            vs->boundLen *= 2;
        }
        vs->bound[pc] = 1;
        int before = pc;
        if (!Tiny_DisasmOne(vs->s, &pc, buf, sizeof(buf))) Monitor("disasm: cannot disassemble position %d", before);
        if (pc == before) Monitor("disasm: no progress at position %d", before);
    }
    vs->boundValid = true;
}

static bool StepOnce(VThread *v) {
    Tiny_StateThread *t = v->t;
    ApplyGc(v);
    if (v->checkPc && t->pc >= 0) {
        VState *vs = &S[v->sidx];
        ComputeBounds(vs);
        if (t->pc >= vs->boundLen || !vs->bound[t->pc])
            Monitor("disasm: thread at position %d, which disassembly does not visit", t->pc);
    }
    bool wasDone = Tiny_IsThreadDone(t);
    bool r = Tiny_ExecuteCycle(t);
    if (wasDone && r) Monitor("step: a finished thread reports that it executed a cycle");
    if (!wasDone && !r) Monitor("step: an unfinished thread reports that it executed no cycle");
    if (wasDone && !Tiny_IsThreadDone(t)) Monitor("step: a finished thread is no longer finished");
    v->steps++;
    if (v->heapCheck && v->due && r && t->maxNumObjects != 0) {
        v->gcs++;
        size_t n = Reachable(t);
        if ((int)n != t->numObjects)
            Monitor("gc: %d objects left after a collection, %zu are reachable", t->numObjects, n);
    } else if (v->heapCheck && v->due && r && t->maxNumObjects == 0) {
        /* either no collection or one that left nothing */
        if (t->numObjects != 0)
            Monitor("gc: no collection although the threshold was reached (%d objects)", t->numObjects);
        v->gcs++;
    }
    return r;
}

/* -------------------------------------------------------- foreign funcs */

#define SPIES 32
typedef struct Spy {
    int mode; /* 0 null, 1 arg k, 2 constant */
    int k;
    Tiny_Value v;
    char *text;
    size_t len;
} Spy;
static Spy spies[SPIES];

static void LogArgs(VThread *v, const char *name, const Tiny_Value *args, int count) {
    Seen seen;
    seen.n = 0;
    Tr("%s %d %d", name, v->idx, count);
    for (int i = 0; i < count; ++i) {
        Tr(" ");
        Ser(args[i], &seen, 0);
    }
    Tr("\n");
}

/* executes commands about other states in the middle of what this one does */
static void Poke(void);

static TINY_FOREIGN_FUNCTION(F_emit) {
    VThread *v = Vt(thread);
    ApplyGc(v);
    LogArgs(v, "emit", args, count);
    Poke();
    return Tiny_Null;
}

static Tiny_Value SpyCommon(int n, Tiny_StateThread *thread, const Tiny_Value *args, int count) {
    VThread *v = Vt(thread);
    ApplyGc(v);
    char name[16];
    snprintf(name, sizeof(name), "spy%d", n);
    LogArgs(v, name, args, count);
    Poke();
    Spy *s = &spies[n];
    switch (s->mode) {
        case 1: return s->k < count ? args[s->k] : Tiny_Null;
        case 2: return s->v;
        case 3: return Tiny_NewStringCopy(thread, s->text, s->len);
        case 4: return Tiny_NewInt(++v->ticks);
        default: return Tiny_Null;
    }
}
#define SPY(n) \
    static TINY_FOREIGN_FUNCTION(F_spy##n) { return SpyCommon(n, thread, args, count); }
SPY(0) SPY(1) SPY(2) SPY(3) SPY(4) SPY(5) SPY(6) SPY(7) SPY(8) SPY(9) SPY(10) SPY(11) SPY(12)
SPY(13) SPY(14) SPY(15) SPY(16) SPY(17) SPY(18) SPY(19) SPY(20) SPY(21) SPY(22) SPY(23) SPY(24)
SPY(25) SPY(26) SPY(27) SPY(28) SPY(29) SPY(30) SPY(31)

static TINY_FOREIGN_FUNCTION(F_idf) {
    ApplyGc(Vt(thread));
    return count > 0 ? args[0] : Tiny_Null;
}

static TINY_FOREIGN_FUNCTION(F_last) {
    ApplyGc(Vt(thread));
    return count > 0 ? args[count - 1] : Tiny_Null;
}

static TINY_FOREIGN_FUNCTION(F_argc) { return Tiny_NewInt(count); }

static pthread_mutex_t natLock = PTHREAD_MUTEX_INITIALIZER;

static TINY_FOREIGN_FUNCTION(F_mknat) {
    VThread *v = Vt(thread);
    ApplyGc(v);
    pthread_mutex_lock(&natLock);
    if (natCount >= MAXN) Bad("too many natives");
    Nat *n = &nats[natCount++];
    pthread_mutex_unlock(&natLock);
    n->magic = NAT_MAGIC;
    n->id = count > 0 ? (int)Tiny_ToInt(args[0]) : 0;
    n->owner = v->idx;
    n->finalized = false;
    return Tiny_NewNative(thread, n, &NatProp);
}

/* mkanon(kind): 0 no address but a finalizer, 1 no properties, 2 properties without functions */
static TINY_FOREIGN_FUNCTION(F_mkanon) {
    ApplyGc(Vt(thread));
    int k = (int)Tiny_ToInt(args[0]);
    if (k == 1) return Tiny_NewNative(thread, nats, NULL);
    if (k == 2) return Tiny_NewNative(thread, nats, &InertProp);
    __atomic_fetch_add(&anonMade, 1, __ATOMIC_RELAXED);
    return Tiny_NewNative(thread, NULL, &AnonProp);
}

static TINY_FOREIGN_FUNCTION(F_natid) {
    Nat *n = Tiny_ToAddr(args[0]);
    if (Tiny_GetProp(args[0]) != &NatProp) return Tiny_NewInt(-1);
    if (n->magic != NAT_MAGIC || n->finalized) Monitor("a finalized native object is still in use");
    return Tiny_NewInt(n->id);
}

static int optLogFin = 0;

static void NatFinalize(Tiny_Context *ctx, void *addr) {
    Nat *n = addr;
    if (n < nats || n >= nats + MAXN || n->magic != NAT_MAGIC) Monitor("finalize: called with a foreign address");
    if (n->finalized) Monitor("finalize: native object %d finalized twice", n->id);
    n->finalized = true;
    __atomic_fetch_add(&finCount, 1, __ATOMIC_RELAXED);
    VThread *v = &T[n->owner];
    if (ctx->userdata != &v->ctx || ctx->alloc != VtAlloc)
        Monitor("finalize: native object %d of thread %d got the context of another owner", n->id, n->owner);
    if (optLogFin) Tr("fin %d %d\n", n->owner, n->id);
}

static void BoxProtect(void *addr) { Tiny_ProtectFromGC(((Box *)addr)->v); }
static void BoxFinalize(Tiny_Context *ctx, void *addr) { ctx->alloc(addr, 0, ctx->userdata); }

static TINY_FOREIGN_FUNCTION(F_box) {
    ApplyGc(Vt(thread));
    int k = __atomic_fetch_add(&boxCount, 1, __ATOMIC_RELAXED);
    if (k % 3 == 1 && k / 3 < 20000) {
        Box *h = &hostBoxes[k / 3];
        h->v = count > 0 ? args[0] : Tiny_Null;
        return Tiny_NewNative(thread, h, &HostBoxProp);
    }
    Box *b = Tiny_AllocUsingContext(thread->ctx, NULL, sizeof(Box));
    b->v = count > 0 ? args[0] : Tiny_Null;
    return Tiny_NewNative(thread, b, &BoxProp);
}
static TINY_FOREIGN_FUNCTION(F_unbox) {
    if (!IsBoxProp(Tiny_GetProp(args[0]))) return Tiny_Null;
    return ((Box *)Tiny_ToAddr(args[0]))->v;
}
static TINY_FOREIGN_FUNCTION(F_setbox) {
    if (IsBoxProp(Tiny_GetProp(args[0]))) ((Box *)Tiny_ToAddr(args[0]))->v = args[1];
    return Tiny_Null;
}

/* callback(name, args...): host call from within a foreign function */
static TINY_FOREIGN_FUNCTION(F_callback) {
    VThread *v = Vt(thread);
    char name[256];
    snprintf(name, sizeof(name), "%s", Tiny_ToString(args[0]));
    int idx = Tiny_GetFunctionIndex(thread->state, name);
    if (idx < 0) return Tiny_Null;
    int pc = thread->pc, fp = thread->fp, sp = thread->sp, fc = thread->fc;
    uint8_t rt = thread->retVal.type;
    int64_t ri = rt == TINY_VAL_INT ? thread->retVal.i : 0;
    const void *ro = rt == TINY_VAL_STRING || rt == TINY_VAL_STRUCT || rt == TINY_VAL_NATIVE ? thread->retVal.obj : NULL;
    const char *file = NULL, *file2 = NULL;
    int line = 0, line2 = 0;
    Tiny_GetExecutingFileLine(thread, &file, &line);
    ApplyGc(v);
    v->depth++;
    Tiny_Value r = Tiny_CallFunction(thread, idx, args + 1, count - 1);
    v->depth--;
    Tiny_GetExecutingFileLine(thread, &file2, &line2);
    if (line != line2 || !file != !file2 || (file && strcmp(file, file2)))
        Monitor("call: the executing position is %s:%d before and %s:%d after a nested host call to %s", file ? file : "-", line, file2 ? file2 : "-", line2, name);
    if (thread->pc != pc || thread->fp != fp || thread->sp != sp || thread->fc != fc)
        Monitor("call: pc/fp/sp/fc changed from %d/%d/%d/%d to %d/%d/%d/%d by a nested host call to %s", pc, fp, sp, fc,
                thread->pc, thread->fp, thread->sp, thread->fc, name);
    if (thread->retVal.type != rt || (rt == TINY_VAL_INT && thread->retVal.i != ri) || (ro && thread->retVal.obj != ro))
        Monitor("call: the interrupted execution's return value changed by a nested host call to %s", name);
    v->due = false;
    ApplyGc(v);
    return r;
}

/* keepcall(name, k, args...): a host call that passes on the first k of the further arguments; all arguments are looked at afterwards */
static TINY_FOREIGN_FUNCTION(F_keepcall) {
    VThread *v = Vt(thread);
    char name[256];
    snprintf(name, sizeof(name), "%s", Tiny_ToString(args[0]));
    int k = (int)Tiny_ToInt(args[1]);
    int idx = Tiny_GetFunctionIndex(thread->state, name);
    if (idx < 0 || k < 0 || k > count - 2) return Tiny_Null;
    ApplyGc(v);
    v->depth++;
    Tiny_Value r = Tiny_CallFunction(thread, idx, args + 2, k);
    v->depth--;
    v->due = false;
    LogArgs(v, "keep", args, count);
    ApplyGc(v);
    return r;
}

static TINY_FOREIGN_FUNCTION(F_gc) {
    Vt(thread)->due = true;
    thread->maxNumObjects = 0;
    return Tiny_Null;
}

static TINY_FOREIGN_FUNCTION(F_garbage) {
    ApplyGc(Vt(thread));
    int n = count > 0 ? (int)Tiny_ToInt(args[0]) : 1;
    for (int i = 0; i < n; ++i) Tiny_NewStringCopy(thread, "garbage", 7);
    return Tiny_Null;
}

/* more(n): whether this is one of the first n - 1 calls on this thread */
static TINY_FOREIGN_FUNCTION(F_more) { return Tiny_NewBool(++Vt(thread)->more < Tiny_ToInt(args[0])); }

static TINY_FOREIGN_FUNCTION(F_numobjs) { return Tiny_NewInt(thread->numObjects); }

/* mkstr(kind, seed, len): a string made through one of the API's constructors */
static TINY_FOREIGN_FUNCTION(F_mkstr) {
    ApplyGc(Vt(thread));
    int kind = (int)Tiny_ToInt(args[0]);
    int64_t seed = Tiny_ToInt(args[1]);
    int len = (int)Tiny_ToInt(args[2]);
    if (len < 0 || len > 1 << 24) len = 0;
    char *tmp = malloc(len + 1);
    for (int i = 0; i < len; ++i) tmp[i] = (char)('a' + (uint64_t)(seed + i * (seed % 7 + 1)) % 26);
    tmp[len] = 0;
    Tiny_Value r;
    switch (kind) {
        case 0: r = Tiny_NewStringCopy(thread, tmp, len); break;
        case 1: r = Tiny_NewStringCopyNullTerminated(thread, tmp); break;
        case 2: {
            char *own = Tiny_AllocUsingContext(thread->ctx, NULL, len + 1);
            memcpy(own, tmp, len + 1);
            r = Tiny_NewString(thread, own, len);
        } break;
        case 3: {
            char *own = Tiny_AllocUsingContext(thread->ctx, NULL, len + 1);
            memcpy(own, tmp, len + 1);
            r = Tiny_NewStringNullTerminated(thread, own);
        } break;
        default: {
            /* constant strings have to outlive the thread */
            static char *pool[65536];
            static int np = 0;
            char *c = strdup(tmp);
            pthread_mutex_lock(&natLock);
            if (np < 65536) pool[np++] = c;
            pthread_mutex_unlock(&natLock);
            r = Tiny_NewConstString(c);
        }
    }
    free(tmp);
    return r;
}

static TINY_FOREIGN_FUNCTION(F_mkbytes) {
    /* mkbytes(b0, b1, ...) : string of these bytes */
    ApplyGc(Vt(thread));
    char buf[256];
    for (int i = 0; i < count && i < 256; ++i) buf[i] = (char)Tiny_ToInt(args[i]);
    return Tiny_NewStringCopy(thread, buf, count < 256 ? count : 256);
}

static TINY_FOREIGN_FUNCTION(F_lnat) { return Tiny_NewLightNative((void *)(uintptr_t)Tiny_ToInt(args[0])); }
static TINY_FOREIGN_FUNCTION(F_mknull) { return Tiny_Null; }
static TINY_FOREIGN_FUNCTION(F_kind) { return Tiny_NewInt(args[0].type); }

static TINY_FOREIGN_FUNCTION(F_eqv) {
    bool a = Tiny_AreValuesEqual(args[0], args[1]);
    return Tiny_NewBool(a);
}

/* where(tag): logs the executing file and line */
static TINY_FOREIGN_FUNCTION(F_where) {
    VThread *v = Vt(thread);
    const char *file = "unset";
    int line = -1;
    Tiny_GetExecutingFileLine(thread, &file, &line);
    Tr("where %d %" PRId64 " ", v->idx, count > 0 ? (int64_t)Tiny_ToInt(args[0]) : -1);
    if (file) TrEsc(file, strlen(file));
    else Tr("-null-");
    Tr(" %d\n", line);
    return Tiny_NewInt(line);
}

typedef struct Reg {
    const char *name;
    Tiny_ForeignFunction f;
} Reg;
#define SP(n) {"spy" #n, F_spy##n}
/* drive(k): executes k cycles of its own thread and then the rest of the program */
static TINY_FOREIGN_FUNCTION(F_drive) {
    VThread *v = Vt(thread);
    for (int k = (int)Tiny_ToInt(args[0]); k > 0 && !Tiny_IsThreadDone(thread); --k) StepOnce(v);
    Tiny_Run(thread);
    return Tiny_NewInt(-1);
}

static const Reg registry[] = {
    {"drive", F_drive},
    {"emit", F_emit}, {"idf", F_idf}, {"last", F_last}, {"argc", F_argc}, {"mknat", F_mknat}, {"natid", F_natid},
    {"box", F_box}, {"unbox", F_unbox}, {"setbox", F_setbox}, {"callback", F_callback}, {"gc", F_gc}, {"keepcall", F_keepcall}, {"mkanon", F_mkanon},
    {"garbage", F_garbage}, {"numobjs", F_numobjs}, {"more", F_more}, {"mkstr", F_mkstr}, {"mkbytes", F_mkbytes}, {"lnat", F_lnat},
    {"mknull", F_mknull}, {"kind", F_kind}, {"eqv", F_eqv}, {"where", F_where},
    SP(0), SP(1), SP(2), SP(3), SP(4), SP(5), SP(6), SP(7), SP(8), SP(9), SP(10), SP(11), SP(12), SP(13), SP(14),
    SP(15), SP(16), SP(17), SP(18), SP(19), SP(20), SP(21), SP(22), SP(23), SP(24), SP(25), SP(26), SP(27), SP(28),
    SP(29), SP(30), SP(31)};

static Tiny_ForeignFunction FindReg(const char *name) {
    for (size_t i = 0; i < sizeof(registry) / sizeof(registry[0]); ++i)
        if (strcmp(registry[i].name, name) == 0) return registry[i].f;
    Bad("unknown foreign function");
    return NULL;
}

/* ---------------------------------------------------------------- macros */

static void LogMacro(const char *kind, char *const *args, int nargs, const char *asName) {
    Tr("macro %s ", kind);
    if (asName) TrEsc(asName, strlen(asName));
    else Tr("-none-");
    Tr(" %d", nargs);
    for (int i = 0; i < nargs; ++i) {
        Tr(" \"");
        TrEsc(args[i], strlen(args[i]));
        Tr("\"");
    }
    Tr("\n");
    Poke();
}

static TINY_MACRO_FUNCTION(M_log) {
    LogMacro("log", args, nargs, asName);
    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
}
static TINY_MACRO_FUNCTION(M_fail) {
    LogMacro("fail", args, nargs, asName);
    Tiny_MacroResult r = {.type = TINY_MACRO_ERROR};
    snprintf(r.error.msg, sizeof(r.error.msg), "%s", nargs > 0 ? args[0] : "failing macro");
    return r;
}
/* compiles its arguments, one after the other; fails if one of them does not compile */
static TINY_MACRO_FUNCTION(M_comp) {
    LogMacro("comp", args, nargs, asName);
    for (int i = 0; i < nargs; ++i) {
        Tiny_CompileResult c = Tiny_CompileString(state, "(comp)", args[i]);
        if (c.type != TINY_COMPILE_SUCCESS) {
            Tiny_MacroResult r = {.type = TINY_MACRO_ERROR};
            snprintf(r.error.msg, sizeof(r.error.msg), "nested: %.900s", c.error.msg);
            return r;
        }
    }
    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
}
/* compiles its arguments and ignores failures */
static TINY_MACRO_FUNCTION(M_try) {
    LogMacro("try", args, nargs, asName);
    for (int i = 0; i < nargs; ++i) {
        Tiny_CompileResult c = Tiny_CompileString(state, "(try)", args[i]);
        Tr("try %s\n", c.type == TINY_COMPILE_SUCCESS ? "ok" : "err");
    }
    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
}
/* reflection: logs the fields of the struct types named by its arguments */
static TINY_MACRO_FUNCTION(M_refl) {
    LogMacro("refl", args, nargs, asName);
    for (int i = 0; i < nargs; ++i) {
        const Tiny_Symbol *s = Tiny_FindTypeSymbol(state, args[i]);
        const Tiny_Symbol *f = Tiny_FindFuncSymbol(state, args[i]);
        const Tiny_Symbol *k = Tiny_FindConstSymbol(state, args[i]);
        Tr("refl %s", args[i]);
        if (s && s->type == TINY_SYM_TAG_STRUCT) {
            Tr(" struct");
            for (size_t j = 0; j < Tiny_SymbolArrayCount(s->sstruct.fields); ++j)
                Tr(" %s:%s", s->sstruct.fields[j]->name, s->sstruct.fields[j]->fieldTag->name);
        } else if (s) {
            Tr(" type %s", s->name);
        } else if (f && f->type == TINY_SYM_FUNCTION) {
            Tr(" func");
            for (size_t j = 0; j < Tiny_SymbolArrayCount(f->func.args); ++j)
                Tr(" %s:%s", f->func.args[j]->name, f->func.args[j]->var.tag->name);
            Tr(" -> %s", f->func.returnTag->name);
        } else if (f) {
            Tr(" foreign");
            for (size_t j = 0; j < Tiny_SymbolArrayCount(f->foreignFunc.argTags); ++j)
                Tr(" %s", f->foreignFunc.argTags[j]->name);
            Tr("%s -> %s", f->foreignFunc.varargs ? " ..." : "", f->foreignFunc.returnTag->name);
        } else if (k) {
            Tr(" const %s ", k->constant.tag->name);
            switch (k->constant.tag->type) {
                case TINY_SYM_TAG_BOOL: Tr("b%d", k->constant.bValue); break;
                case TINY_SYM_TAG_INT: Tr("i%" PRId64, (int64_t)k->constant.iValue); break;
                case TINY_SYM_TAG_FLOAT: SerVal(Tiny_NewFloat(k->constant.fValue)); break;
                case TINY_SYM_TAG_STR:
                    SerVal(Tiny_NewConstString(Tiny_GetStringFromConstIndex(state, k->constant.sIndex)));
                    break;
                default: break;
            }
        } else {
            Tr(" missing");
        }
        Tr("\n");
    }
    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
}
/* everything a name stands for */
static void Look(Tiny_State *state, const char *name, bool index) {
    const Tiny_Symbol *s = Tiny_FindTypeSymbol(state, name);
    const Tiny_Symbol *f = Tiny_FindFuncSymbol(state, name);
    const Tiny_Symbol *k = Tiny_FindConstSymbol(state, name);
    Tr("look ");
    TrEsc(name, strlen(name));
    if (s && strcmp(s->name, name)) Tr(" named %s", s->name);
    if (f && strcmp(f->name, name)) Tr(" named %s", f->name);
    if (k && strcmp(k->name, name)) Tr(" named %s", k->name);
    if (s && s->type == TINY_SYM_TAG_STRUCT) {
        Tr(" struct(");
        for (size_t j = 0; j < Tiny_SymbolArrayCount(s->sstruct.fields); ++j)
            Tr("%s%s:%s", j ? " " : "", s->sstruct.fields[j]->name, s->sstruct.fields[j]->fieldTag->name);
        Tr(")");
    } else if (s) {
        Tr(" %s", s->type == TINY_SYM_TAG_FOREIGN ? "foreign" : "type");
    }
    if (f && f->type == TINY_SYM_FUNCTION) {
        Tr(" func(");
        for (size_t j = 0; j < Tiny_SymbolArrayCount(f->func.args); ++j)
            Tr("%s%s:%s", j ? " " : "", f->func.args[j]->name, f->func.args[j]->var.tag->name);
        Tr("):%s", f->func.returnTag->name);
    } else if (f) {
        Tr(" host(");
        for (size_t j = 0; j < Tiny_SymbolArrayCount(f->foreignFunc.argTags); ++j)
            Tr("%s%s", j ? " " : "", f->foreignFunc.argTags[j]->name);
        Tr("%s):%s", f->foreignFunc.varargs ? Tiny_SymbolArrayCount(f->foreignFunc.argTags) ? " ..." : "..." : "", f->foreignFunc.returnTag->name);
    }
    if (k) {
        Tr(" const %s ", k->constant.tag->name);
        switch (k->constant.tag->type) {
            case TINY_SYM_TAG_BOOL: SerVal(Tiny_NewBool(k->constant.bValue)); break;
            case TINY_SYM_TAG_INT: SerVal(Tiny_NewInt(k->constant.iValue)); break;
            case TINY_SYM_TAG_FLOAT: SerVal(Tiny_NewFloat(k->constant.fValue)); break;
            case TINY_SYM_TAG_STR: SerVal(Tiny_NewConstString(Tiny_GetStringFromConstIndex(state, k->constant.sIndex))); break;
            default: break;
        }
    }
    if (index) {
        if (Tiny_GetGlobalIndex(state, name) >= 0) Tr(" var");
        if (Tiny_GetFunctionIndex(state, name) >= 0) Tr(" callable");
    }
    Tr("\n");
}
static TINY_MACRO_FUNCTION(M_look) {
    LogMacro("look", args, nargs, asName);
    for (int i = 0; i < nargs; ++i) Look(state, args[i], false);
    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
}
/* binds a foreign function named by asName: signature built from the arguments */
static TINY_MACRO_FUNCTION(M_bind) {
    LogMacro("bind", args, nargs, asName);
    if (!asName || Tiny_FindFuncSymbol(state, asName)) return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
    char sig[512];
    snprintf(sig, sizeof(sig), "%s%s", asName, nargs > 0 ? args[0] : "");
    Tiny_BindFunction(state, sig, F_emit);
    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
}
/* binds an identity function and a constant for a type */
static TINY_MACRO_FUNCTION(M_type) {
    LogMacro("type", args, nargs, asName);
    if (!asName || strlen(asName) > 200 || Tiny_FindFuncSymbol(state, asName)) return (Tiny_MacroResult){.type = TINY_MACRO_ERROR, .error.msg = "needs a name"};
    Tiny_RegisterType(state, asName);
    char sig[512];
    snprintf(sig, sizeof(sig), "%s_make(int): %s", asName, asName);
    if (!Tiny_FindTypeSymbol(state, asName)) Bad("registered type not found");
    char fn[256];
    snprintf(fn, sizeof(fn), "%s_make", asName);
    if (!Tiny_FindFuncSymbol(state, fn)) {
        Tiny_BindFunction(state, sig, F_mknat);
        snprintf(sig, sizeof(sig), "%s_id(%s): int", asName, asName);
        Tiny_BindFunction(state, sig, F_natid);
        snprintf(sig, sizeof(sig), "%s_answer", asName);
        Tiny_BindConstInt(state, sig, 42);
    }
    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
}

static Tiny_MacroFunction FindMacro(const char *n) {
    if (!strcmp(n, "log")) return M_log;
    if (!strcmp(n, "fail")) return M_fail;
    if (!strcmp(n, "comp")) return M_comp;
    if (!strcmp(n, "try")) return M_try;
    if (!strcmp(n, "refl")) return M_refl;
    if (!strcmp(n, "look")) return M_look;
    if (!strcmp(n, "bind")) return M_bind;
    if (!strcmp(n, "type")) return M_type;
    Bad("unknown macro");
    return NULL;
}

/* -------------------------------------------------------------- commands */

typedef struct Tok {
    char *s;
    size_t n;
} Tok;
#define MAXTOK 600
typedef struct Cmd {
    Tok *tok;
    int n;
} Cmd;

static int outFd = -1;
static off_t outPos = 0;

static void DrainOut(const char *label) {
    fflush(stdout);
    off_t end = lseek(outFd, 0, SEEK_END);
    Tr("%s \"", label);
    char buf[4096];
    while (outPos < end) {
        ssize_t r = pread(outFd, buf, sizeof(buf), outPos);
        if (r <= 0) break;
        TrEsc(buf, r);
        outPos += r;
    }
    Tr("\"\n");
}

static int Num(Tok t) { return (int)strtol(t.s, NULL, 10); }

static VState *St(Tok t) {
    int i = Num(t);
    if (i < 0 || i >= MAXS || !S[i].s) Bad("no such state");
    return &S[i];
}
static VThread *Th(Tok t) {
    int i = Num(t);
    if (i < 0 || i >= MAXT || !T[i].t) Bad("no such thread");
    return &T[i];
}

/* native objects which stand for something that is not theirs */
static char pins[16];
static const Tiny_NativeProp PinProp = {"pin", NULL, NULL};
static const Tiny_NativeProp OtherPinProp = {"other pin", NULL, NULL};

static Tiny_Value ParseVal(Tiny_StateThread *t, Tok k) {
    const char *s = k.s;
    switch (s[0]) {
        case 'n': return Tiny_Null;
        case 'b': return Tiny_NewBool(s[1] == '1');
        case 'i': return Tiny_NewInt((Tiny_Int)strtoll(s + 1, NULL, 10));
        case 'f': {
            uint64_t u = strtoull(s + 1, NULL, 16);
            double d;
            memcpy(&d, &u, 8);
            return Tiny_NewFloat(d);
        }
        case 's': return Tiny_NewStringCopy(t, s + 2, k.n - 2);
        case 'o': {
            char *own = Tiny_AllocUsingContext(t->ctx, NULL, k.n - 2 + 1);
            memcpy(own, s + 2, k.n - 2);
            own[k.n - 2] = 0;
            return Tiny_NewString(t, own, k.n - 2);
        }
        case 'c': return Tiny_NewConstString(s + 2); /* the case text outlives everything */
        case 'l': return Tiny_NewLightNative((void *)(uintptr_t)strtoull(s + 1, NULL, 16));
        case 'R': return R[atoi(s + 1)];
        case 'K': return Tiny_NewNative(t, &pins[atoi(s + 1) % 16], s[1] == '1' ? &PinProp : NULL);
        /* the same addresses with other properties: a native is what it points to */
        case 'M': return Tiny_NewNative(t, &pins[atoi(s + 1) % 16], s[1] == '1' ? NULL : &OtherPinProp);
        case 'm': return Tiny_NewLightNative(&pins[atoi(s + 1) % 16]);
        case 'k': {
            pthread_mutex_lock(&natLock);
            Nat *n = &nats[natCount++];
            pthread_mutex_unlock(&natLock);
            n->magic = NAT_MAGIC;
            n->id = atoi(s + 1);
            n->owner = ((VThread *)t->userdata)->idx;
            n->finalized = false;
            return Tiny_NewNative(t, n, &NatProp);
        }
    }
    Bad("bad value");
    return Tiny_Null;
}

static void LogCompile(int s, Tiny_CompileResult *r) {
    if (r->type == TINY_COMPILE_SUCCESS) {
        Tr("compile %d ok\n", s);
    } else {
        size_t n = strnlen(r->error.msg, sizeof(r->error.msg));
        Tr("compile %d err %d \"", s, (int)r->error.pos);
        TrEsc(r->error.msg, n);
        Tr("\"%s\n", n >= sizeof(r->error.msg) ? " UNTERMINATED" : "");
    }
}

/* C API objects */
static Array *arrs[16];
static Dict *dicts[16];
static Ctx apiCtx;
static Tiny_Context ApiContext(void) {
    apiCtx.id = 900;
    return (Tiny_Context){VtAlloc, &apiCtx};
}
static Tiny_StateThread *apiThread; /* for values that need one */
static VThread apiV;

#define MAXAR 4
#define MAXAB 4096
static struct {
    Tiny_Arena a;
    Ctx ctx;
    struct {
        unsigned char *p;
        size_t n;
        unsigned char pat;
    } blk[MAXAB];
    int n;
    bool live;
} AR[MAXAR];

static const char *TokName(Tiny_TokenKind k) {
    switch (k) {
#define K(x) \
    case TINY_TOK_##x: return #x;
#include "tokennames.inc"
#undef K
        default: return NULL;
    }
}

static void RunCmds(Cmd *cmds, int n);
static void Exec(Cmd *c);

typedef struct Lane {
    pthread_t th;
    Trace trace;
    Cmd **cmds;
    int n, cap;
    int id;
} Lane;
static Lane lanes[16];
static int laneCount = 0;
static bool inPar = false;
static pthread_barrier_t laneBarrier;

static void *LaneMain(void *p) {
    Lane *l = p;
    tr = &l->trace;
    pthread_barrier_wait(&laneBarrier);
    for (int i = 0; i < l->n; ++i) Exec(l->cmds[i]);
    return NULL;
}

static void RunLanes(void) {
    pthread_barrier_init(&laneBarrier, NULL, laneCount);
    for (int i = 0; i < laneCount; ++i) {
        lanes[i].trace.cap = 16u << 20;
        lanes[i].trace.buf = malloc(lanes[i].trace.cap);
        lanes[i].trace.len = &lanes[i].trace.ownLen;
        lanes[i].trace.ownLen = 0;
        pthread_create(&lanes[i].th, NULL, LaneMain, &lanes[i]);
    }
    for (int i = 0; i < laneCount; ++i) pthread_join(lanes[i].th, NULL);
    for (int i = 0; i < laneCount; ++i) {
        Tr("lane %d\n", i);
        TrRaw(lanes[i].trace.buf, lanes[i].trace.ownLen);
        Tr("endlane %d\n", i);
        free(lanes[i].trace.buf);
        free(lanes[i].cmds);
        lanes[i].cmds = NULL;
        lanes[i].n = lanes[i].cap = 0;
    }
    laneCount = 0;
}

static bool Is(Cmd *c, const char *s) { return strcmp(c->tok[0].s, s) == 0; }

static uint64_t CtxHash(Ctx *c) {
    uint64_t h = 0;
    for (Blk *b = c->head; b; b = b->next) {
        uint64_t x = 1469598103934665603ull;
        const unsigned char *p = b->mem;
        for (size_t i = 0; i < b->size; ++i) x = (x ^ p[i]) * 1099511628211ull;
        h += x * (b->size + 1);
    }
    return h + c->live;
}

#define MAXSIDE 4000
static Cmd sideCmds[MAXSIDE];
static int sideCount = 0, sideNext = 0, pokeEvery = 0, pokeMost = 1;
static bool inSide = false;
static uint64_t pokeRand = 1;
static void Exec(Cmd *c);

static void SideOne(void) {
    Cmd m = sideCmds[sideNext++];
    inSide = true;
    Tr("<< %s\n", m.tok[1].s);
    m.tok += 2;
    m.n -= 2;
    Exec(&m);
    Tr(">>\n");
    inSide = false;
}

static void Poke(void) {
    if (sideNext >= sideCount || inSide || pokeEvery == 0) return;
    if (NextRand(&pokeRand) % pokeEvery) return;
    for (int n = 1 + (int)(NextRand(&pokeRand) % pokeMost); n > 0 && sideNext < sideCount; --n) SideOne();
}

static void LogThreadEnd(VThread *v, bool done) {
    Tr("%s %d sp=%d fc=%d\n", done ? "done" : "limit", v->idx, v->t->sp, v->t->fc);
}

static void Exec(Cmd *c) {
    Tok *a = c->tok;
    if (Is(c, "state")) {
        int i = Num(a[1]);
        VState *v = &S[i];
        memset(v, 0, sizeof(*v));
        v->ctx.id = i;
        v->ctx.isState = true;
        v->s = Tiny_CreateStateWithContext((Tiny_Context){VtAlloc, &v->ctx});
    } else if (Is(c, "std")) {
        VState *v = St(a[1]);
        for (const char *p = a[2].s; *p; ++p) switch (*p) {
                case 'l': Tiny_BindStandardLib(v->s); break;
                case 'i': Tiny_BindStandardIO(v->s); break;
                case 'a': Tiny_BindStandardArray(v->s); break;
                case 'd': Tiny_BindStandardDict(v->s); break;
                case '6': Tiny_BindI64(v->s); break;
                default: Bad("std");
            }
    } else if (Is(c, "bind")) {
        Tiny_BindFunction(St(a[1])->s, a[2].s, FindReg(a[3].s));
    } else if (Is(c, "type")) {
        Tiny_RegisterType(St(a[1])->s, a[2].s);
    } else if (Is(c, "macro")) {
        Tiny_BindMacro(St(a[1])->s, a[2].s, FindMacro(a[3].s));
    } else if (Is(c, "constb")) {
        Tiny_BindConstBool(St(a[1])->s, a[2].s, a[3].s[0] == '1');
    } else if (Is(c, "consti")) {
        Tiny_BindConstInt(St(a[1])->s, a[2].s, strtoll(a[3].s, NULL, 10));
    } else if (Is(c, "constf")) {
        uint64_t u = strtoull(a[3].s, NULL, 16);
        double d;
        memcpy(&d, &u, 8);
        Tiny_BindConstFloat(St(a[1])->s, a[2].s, d);
    } else if (Is(c, "consts")) {
        Tiny_BindConstString(St(a[1])->s, a[2].s, a[3].s);
    } else if (Is(c, "compile")) {
        VState *v = St(a[1]);
        v->boundValid = false;
        Tiny_CompileResult r = Tiny_CompileString(v->s, a[2].s, a[3].s);
        LogCompile(Num(a[1]), &r);
    } else if (Is(c, "compilefile")) {
        VState *v = St(a[1]);
        v->boundValid = false;
        Tiny_CompileResult r = Tiny_CompileFile(v->s, a[2].s);
        LogCompile(Num(a[1]), &r);
    } else if (Is(c, "mkfile")) {
        FILE *f = fopen(a[1].s, "wb");
        if (!f) Bad("mkfile");
        fwrite(a[2].s, 1, a[2].n, f);
        fclose(f);
    } else if (Is(c, "tmpdir")) { /* a fresh working directory */
        char name[64];
        snprintf(name, sizeof(name), "d%d", (int)getpid());
        if (mkdir(name, 0777) || chdir(name)) Bad("tmpdir");
    } else if (Is(c, "readfile")) {
        FILE *f = fopen(a[1].s, "rb");
        if (!f) {
            Tr("file %s missing\n", a[1].s);
        } else {
            Tr("file %s \"", a[1].s);
            char buf[4096];
            size_t r;
            while ((r = fread(buf, 1, sizeof(buf), f)) > 0) TrEsc(buf, r);
            fclose(f);
            Tr("\"\n");
        }
    } else if (Is(c, "thread")) {
        int i = Num(a[1]);
        VThread *v = &T[i];
        memset(v, 0, sizeof(*v));
        v->idx = i;
        v->sidx = Num(a[2]);
        v->ctx.id = 100 + i;
        v->t = malloc(sizeof(Tiny_StateThread));
#ifndef VT_MSAN
        memset(v->t, optFill, sizeof(Tiny_StateThread));
#endif
        Tiny_InitThreadWithContext(v->t, St(a[2])->s, (Tiny_Context){VtAlloc, &v->ctx});
        if (v->t->userdata) Monitor("InitThread did not reset userdata");
        v->t->userdata = v;
    } else if (Is(c, "start")) {
        Tiny_StartThread(Th(a[1])->t);
    } else if (Is(c, "gcmode")) {
        VThread *v = Th(a[1]);
        v->gcMode = Num(a[2]);
        v->rng = c->n > 3 ? strtoull(a[3].s, NULL, 10) | 1 : 88172645463325252ull;
    } else if (Is(c, "check")) {
        VThread *v = Th(a[1]);
        v->checkPc = strchr(a[2].s, 'p') != NULL;
        v->heapCheck = strchr(a[2].s, 'h') != NULL;
    } else if (Is(c, "run")) {
        VThread *v = Th(a[1]);
        long lim = c->n > 2 ? atol(a[2].s) : 5000000;
        bool done = false;
        for (long i = 0; i < lim; ++i)
            if (!StepOnce(v)) {
                done = true;
                break;
            }
        if (done && !Tiny_IsThreadDone(v->t)) Monitor("step: reports no execution but the thread is not done");
        LogThreadEnd(v, done);
    } else if (Is(c, "runraw")) {
        VThread *v = Th(a[1]);
        ApplyGc(v);
        Tiny_Run(v->t);
        LogThreadEnd(v, Tiny_IsThreadDone(v->t));
    } else if (Is(c, "steps")) { /* steps t n : n cycles, quietly */
        VThread *v = Th(a[1]);
        long n = atol(a[2].s);
        for (long i = 0; i < n; ++i)
            if (!StepOnce(v)) break;
    } else if (Is(c, "step")) {
        VThread *v = Th(a[1]);
        bool r = StepOnce(v);
        Tr("step %d %d done=%d\n", v->idx, r, Tiny_IsThreadDone(v->t));
    } else if (Is(c, "isdone")) {
        VThread *v = Th(a[1]);
        Tr("isdone %d %d\n", v->idx, Tiny_IsThreadDone(v->t));
    } else if (Is(c, "interleave")) { /* interleave seed maxchunk t... : until all are done */
        uint64_t rng = strtoull(a[1].s, NULL, 10) * 2654435761u + 88172645463325253ull;
        int mc = Num(a[2]);
        int nt = c->n - 3;
        bool done[MAXT] = {0};
        int left = nt;
        long total = 0;
        while (left > 0 && total < 20000000) {
            int k = NextRand(&rng) % nt;
            if (done[k]) continue;
            VThread *v = Th(a[3 + k]);
            int chunk = 1 + NextRand(&rng) % mc;
            for (int i = 0; i < chunk; ++i) {
                ++total;
                if (!StepOnce(v)) {
                    done[k] = true;
                    --left;
                    LogThreadEnd(v, true);
                    break;
                }
            }
        }
        if (left) Tr("interleave limit\n");
    } else if (Is(c, "call")) {
        VThread *v = Th(a[1]);
        int idx = Tiny_GetFunctionIndex(S[v->sidx].s, a[2].s);
        if (idx < 0) {
            Tr("ret %d missing %s\n", v->idx, a[2].s);
            return;
        }
        Tiny_Value args[256];
        int n = 0;
        for (int i = 3; i < c->n; ++i) args[n++] = ParseVal(v->t, a[i]);
        int pc = v->t->pc, fp = v->t->fp, sp = v->t->sp, fc = v->t->fc;
        ApplyGc(v);
        Tiny_Value r = Tiny_CallFunction(v->t, idx, args, n);
        if (v->t->pc != pc || v->t->fp != fp || v->t->sp != sp || v->t->fc != fc)
            Monitor("call: pc/fp/sp/fc changed from %d/%d/%d/%d to %d/%d/%d/%d by a host call to %s", pc, fp, sp, fc,
                    v->t->pc, v->t->fp, v->t->sp, v->t->fc, a[2].s);
        R[v->idx] = r;
        Tr("ret %d ", v->idx);
        SerVal(r);
        Tr("\n");
    } else if (Is(c, "calls")) { /* calls t n f args: n times, logs the last result */
        VThread *v = Th(a[1]);
        int idx = Tiny_GetFunctionIndex(S[v->sidx].s, a[3].s);
        if (idx < 0) Bad("calls: no such function");
        Tiny_Value args[256], r = Tiny_Null;
        for (long k = 0; k < atol(a[2].s); ++k) {
            int n = 0;
            for (int i = 4; i < c->n; ++i) args[n++] = ParseVal(v->t, a[i]);
            ApplyGc(v);
            r = Tiny_CallFunction(v->t, idx, args, n);
        }
        Tr("ret %d ", v->idx);
        SerVal(r);
        Tr("\n");
    } else if (Is(c, "setg") || Is(c, "getg")) {
        VThread *v = Th(a[1]);
        int g = Tiny_GetGlobalIndex(S[v->sidx].s, a[2].s);
        if (g < 0) {
            Tr("glob %d %s missing\n", v->idx, a[2].s);
            return;
        }
        if (Is(c, "setg")) {
            Tiny_SetGlobal(v->t, g, ParseVal(v->t, a[3]));
        } else {
            Tr("glob %d %s ", v->idx, a[2].s);
            SerVal(Tiny_GetGlobal(v->t, g));
            Tr("\n");
        }
    } else if (Is(c, "fidx")) {
        Tr("fidx %s %d\n", a[2].s, Tiny_GetFunctionIndex(St(a[1])->s, a[2].s));
    } else if (Is(c, "gidx")) {
        Tr("gidx %s %d\n", a[2].s, Tiny_GetGlobalIndex(St(a[1])->s, a[2].s));
    } else if (Is(c, "refl")) { /* symbol lookup from the host */
        M_refl(St(a[1])->s, (char *const[]){a[2].s}, 1, NULL);
    } else if (Is(c, "look")) {
        for (int i = 2; i < c->n; ++i) Look(St(a[1])->s, a[i].s, true);
    } else if (Is(c, "where")) {
        VThread *v = Th(a[1]);
        const char *file = "unset";
        int line = -1;
        Tiny_GetExecutingFileLine(v->t, &file, &line);
        Tr("at %d ", v->idx);
        if (file) TrEsc(file, strlen(file));
        else Tr("-null-");
        Tr(" %d\n", line);
        Tiny_GetExecutingFileLine(v->t, NULL, NULL);
    } else if (Is(c, "trackwhere")) { /* run to the end, logging position changes */
        VThread *v = Th(a[1]);
        long lim = atol(a[2].s);
        char last[300] = "";
        for (long i = 0; i < lim; ++i) {
            if (Tiny_IsThreadDone(v->t)) break;
            const char *file;
            int line;
            Tiny_GetExecutingFileLine(v->t, &file, &line);
            char cur[300];
            snprintf(cur, sizeof(cur), "%s %d", file ? file : "-null-", line);
            if (strcmp(cur, last)) {
                Tr("at %d %s\n", v->idx, cur);
                strcpy(last, cur);
            }
            StepOnce(v);
        }
        const char *file;
        int line;
        Tiny_GetExecutingFileLine(v->t, &file, &line);
        Tr("at %d %s %d\n", v->idx, file ? file : "-null-", line);
    } else if (Is(c, "destroy")) {
        VThread *v = Th(a[1]);
        Tiny_DestroyThread(v->t);
        if (v->ctx.live) Monitor("alloc: %zu blocks of thread %d remain after it was destroyed", v->ctx.live, v->idx);
        v->ctx.dead = true;
        free(v->t);
        v->t = NULL;
    } else if (Is(c, "delstate")) {
        VState *v = St(a[1]);
        Tiny_DeleteState(v->s);
        if (v->ctx.live) Monitor("alloc: %zu blocks of state %d remain after it was deleted", v->ctx.live, v->ctx.id);
        v->ctx.dead = true;
        v->s = NULL;
        free(v->bound);
        v->bound = NULL;
    } else if (Is(c, "allocs")) { /* statistics for the evidence */
        size_t al = 0, re = 0, fr = 0;
        for (int i = 0; i < MAXS; ++i) al += S[i].ctx.allocs, re += S[i].ctx.reallocs, fr += S[i].ctx.frees;
        for (int i = 0; i < MAXT; ++i) al += T[i].ctx.allocs, re += T[i].ctx.reallocs, fr += T[i].ctx.frees;
        Tr("allocs %zu %zu %zu\n", al, re, fr);
    } else if (Is(c, "live")) {
        Ctx *x = a[1].s[0] == 's' ? &S[atoi(a[1].s + 1)].ctx : &T[atoi(a[1].s + 1)].ctx;
        Tr("live %s %zu %zu\n", a[1].s, x->live, x->liveBytes);
    } else if (Is(c, "peak")) {
        Ctx *x = a[1].s[0] == 's' ? &S[atoi(a[1].s + 1)].ctx : &T[atoi(a[1].s + 1)].ctx;
        Tr("peak %s %zu %zu\n", a[1].s, x->peakLive, x->peakBytes);
        x->peakLive = x->live;
        x->peakBytes = x->liveBytes;
    } else if (Is(c, "stats")) {
        VThread *v = Th(a[1]);
        Tr("stats %d steps=%zu gcs=%zu\n", v->idx, v->steps, v->gcs);
    } else if (Is(c, "objs")) {
        VThread *v = Th(a[1]);
        Tr("objs %d %d reach=%zu\n", v->idx, v->t->numObjects, Reachable(v->t));
    } else if (Is(c, "forcegc")) { /* a collection at the next cycle */
        Th(a[1])->t->maxNumObjects = 0;
    } else if (Is(c, "fins")) {
        int pend = 0;
        for (int i = 0; i < natCount; ++i) pend += !nats[i].finalized;
        Tr("fins made=%zu finalized=%zu pending=%d\n", natCount + anonMade, finCount + anonFin, pend);
    } else if (Is(c, "forbid")) {
        St(a[1])->ctx.forbidden = a[2].s[0] == '1';
    } else if (Is(c, "hash")) {
        Tr("hash %s %016" PRIx64 "\n", a[1].s, CtxHash(&St(a[1])->ctx));
    } else if (Is(c, "savehash")) {
        VState *v = St(a[1]);
        v->ctx.peakLive = 0;
        uint64_t h = CtxHash(&v->ctx);
        static __thread uint64_t saved[MAXS];
        static __thread bool has[MAXS];
        int i = Num(a[1]);
        if (has[i] && a[2].s[0] == 'c' && saved[i] != h) Monitor("state: memory of the compiled state %d changed", i);
        saved[i] = h;
        has[i] = true;
    } else if (Is(c, "disasm")) {
        VState *v = St(a[1]);
        int cap = c->n > 2 ? Num(a[2]) : 512;
        int pc = 0;
        int n = 0;
        while (pc >= 0) {
            char *buf = malloc(cap > 0 ? cap : 1);
            memset(buf, '#', cap > 0 ? cap : 1);
            int before = pc;
            bool ok = Tiny_DisasmOne(v->s, &pc, buf, cap);
            size_t len = strnlen(buf, cap);
            Tr("dis %d %d %d \"", before, ok, pc);
            TrEsc(buf, len);
            Tr("\"%s\n", cap > 0 && len >= (size_t)cap ? " UNTERMINATED" : "");
            free(buf);
            if (pc == before || ++n > 2000000) {
                Tr("dis stuck\n");
                break;
            }
        }
        Tr("dis end %d\n", n);
    } else if (Is(c, "disq")) { /* disassemble everything, only count */
        VState *v = St(a[1]);
        v->boundValid = false;
        ComputeBounds(v);
        int n = 0;
        for (int i = 0; i < v->boundLen; ++i) n += v->bound[i];
        Tr("disq %d\n", n);
    } else if (Is(c, "pc")) {
        VThread *v = Th(a[1]);
        Tr("pc %d %d sp=%d fc=%d\n", v->idx, v->t->pc, v->t->sp, v->t->fc);
    } else if (Is(c, "exectrace")) { /* run logging the disassembly of every instruction executed */
        VThread *v = Th(a[1]);
        long lim = atol(a[2].s);
        for (long i = 0; i < lim && !Tiny_IsThreadDone(v->t); ++i) {
            char buf[512];
            int pc = v->t->pc;
            bool ok = Tiny_DisasmOne(v->t->state, &pc, buf, sizeof(buf));
            const char *file = NULL;
            int line = 0;
            Tiny_GetExecutingFileLine(v->t, &file, &line);
            Tr("ex %d %d %d sp=%d fc=%d \"", v->t->pc, ok, pc, v->t->sp, v->t->fc);
            TrEsc(buf, strnlen(buf, sizeof(buf)));
            Tr("\" ");
            TrEsc(file ? file : "(null)", strlen(file ? file : "(null)"));
            Tr(":%d top=", line);
            Tiny_Value top = Tiny_Null;
            if (v->t->sp > 0) {
                top = v->t->stack[v->t->sp - 1];
                SerVal(top);
            }
            Tr("\n");
            StepOnce(v);
            Tr("ex> %d sp=%d fc=%d top=", v->t->pc, v->t->sp, v->t->fc);
            if (v->t->sp > 0) SerVal(v->t->stack[v->t->sp - 1]);
            if (top.type == TINY_VAL_STRUCT && v->gcMode == 3) { /* nothing is collected in this mode */
                Tr(" was=");
                SerVal(top);
            }
            Tr("\n");
        }
    } else if (Is(c, "disat")) { /* one position, any buffer size */
        VState *v = St(a[1]);
        int pc = Num(a[2]), cap = Num(a[3]), before = pc;
        char *buf = malloc(cap > 0 ? cap : 1);
        memset(buf, '#', cap > 0 ? cap : 1);
        bool ok = Tiny_DisasmOne(v->s, &pc, buf, cap);
        size_t len = strnlen(buf, cap);
        Tr("dis %d %d %d \"", before, ok, pc);
        TrEsc(buf, len);
        Tr("\"%s\n", cap > 0 && len >= (size_t)cap ? " UNTERMINATED" : "");
        free(buf);
    } else if (Is(c, "spy")) {
        Spy *s = &spies[Num(a[1])];
        switch (a[2].s[0]) {
            case 'a': s->mode = 1; s->k = atoi(a[2].s + 1); break;
            case 'n': s->mode = 0; break;
            case 'v':
                s->mode = 2;
                s->v = ParseVal(NULL, a[3]);
                break;
            case 's':
                s->mode = 3;
                s->text = a[3].s;
                s->len = a[3].n;
                break;
            case 'c': s->mode = 4; break;
            default: Bad("spy");
        }
    } else if (Is(c, "opt")) {
        if (!strcmp(a[1].s, "fill")) optFill = (int)strtol(a[2].s, NULL, 16);
        else if (!strcmp(a[1].s, "fin")) optLogFin = Num(a[2]);
        else if (!strcmp(a[1].s, "pack")) optPack = Num(a[2]);
        else if (!strcmp(a[1].s, "direct")) directAllowed = Num(a[2]);
        else if (!strcmp(a[1].s, "limit")) optLimit = (size_t)atol(a[2].s);
        else if (!strcmp(a[1].s, "churn")) {
            /* shift where later blocks are placed */
            static void *keep[4096];
            int n = Num(a[2]);
            for (int i = 0; i < n && i < 4096; ++i) keep[i] = malloc(24 + (i * 37) % 900);
            for (int i = 0; i < n && i < 4096; i += 2) free(keep[i]), keep[i] = NULL;
        } else if (!strcmp(a[1].s, "outcheck")) {
        } else Bad("opt");
    } else if (Is(c, "stdin")) {
        char name[] = "stdin.tmp";
        FILE *f = fopen(name, "wb");
        if (!f) Bad("stdin");
        fwrite(a[1].s, 1, a[1].n, f);
        fclose(f);
        if (!freopen(name, "rb", stdin)) Bad("freopen");
    } else if (Is(c, "out")) {
        DrainOut("out");
    } else if (Is(c, "note")) {
        Tr("note %s\n", a[1].s);
    } else if (Is(c, "defstate")) {
        /* default allocator API: Tiny_CreateState / Tiny_InitThread */
        directAllowed = true;
        Tiny_State *s = Tiny_CreateState();
        Tiny_BindFunction(s, "emit", F_argc);
        Tiny_CompileResult r = Tiny_CompileString(s, a[1].s, a[2].s);
        LogCompile(-1, &r);
        Tiny_StateThread *t = malloc(sizeof(*t));
        Tiny_InitThread(t, s);
        if (r.type == TINY_COMPILE_SUCCESS) {
            Tiny_StartThread(t);
            for (int i = 0; i < 100000 && Tiny_ExecuteCycle(t); ++i);
            for (int i = 3; i < c->n; ++i) {
                int g = Tiny_GetGlobalIndex(s, a[i].s);
                Tr("glob - %s ", a[i].s);
                if (g < 0) Tr("missing\n");
                else {
                    SerVal(Tiny_GetGlobal(t, g));
                    Tr("\n");
                }
            }
        }
        Tiny_DestroyThread(t);
        Tiny_DeleteState(s);
        free(t);
        directAllowed = false;
        if (directLive) Monitor("alloc: %ld blocks of the default allocator remain", directLive);
    }
    /* ---- C API: lexer ---- */
    else if (Is(c, "lex")) {
        Ctx ctx = {0};
        ctx.id = 901;
        Tiny_Lexer l;
        memset(&l, optFill, sizeof(l));
        char *src = malloc(a[1].n + 1); /* exact size, so that overreads are seen */
        memcpy(src, a[1].s, a[1].n);
        src[a[1].n] = 0;
        Tiny_InitLexer(&l, "lex", src, (Tiny_Context){VtAlloc, &ctx});
        int eofs = 0, errs = 0;
        size_t maxTok = a[1].n + 8;
        for (size_t i = 0; i < maxTok && eofs < 3 && errs < 1; ++i) {
            Tiny_TokenKind k = Tiny_GetToken(&l);
            const char *nm = TokName(k);
            Tr("tok %s %d", nm ? nm : "?", l.lineNumber);
            if (k == TINY_TOK_IDENT || k == TINY_TOK_STRING) {
                Tr(" \"");
                TrEsc(l.lexeme, strlen(l.lexeme));
                Tr("\"");
            }
            if (k == TINY_TOK_INT || k == TINY_TOK_CHAR) Tr(" %" PRId64, (int64_t)l.iValue);
            if (k == TINY_TOK_FLOAT) {
                Tr(" ");
                SerVal(Tiny_NewFloat(l.fValue));
            }
            if (k == TINY_TOK_BOOL) Tr(" %d", l.bValue);
            if (k == TINY_TOK_LEXER_ERROR) {
                Tr(" msg=%d", l.errorMsg != NULL && l.errorMsg[0] != 0);
                ++errs;
            }
            if (k == TINY_TOK_EOF) ++eofs;
            Tr("\n");
        }
        Tr("lexed %d %d\n", eofs, errs);
        Tiny_DestroyLexer(&l);
        if (ctx.live) Monitor("alloc: lexer left %zu blocks", ctx.live);
        free(src);
    }
    /* ---- C API: pos ---- */
    else if (Is(c, "pos")) {
        char *src = malloc(a[1].n + 1);
        memcpy(src, a[1].s, a[1].n);
        src[a[1].n] = 0;
        for (int i = 2; i < c->n; ++i) {
            Tiny_FriendlyPos p = Tiny_PosToFriendlyPos((Tiny_Pos){(uint32_t)Num(a[i])}, src, (uint32_t)a[1].n);
            Tr("pos %d %u %u\n", Num(a[i]), p.lineIndex, p.charIndex);
        }
        free(src);
    }
    /* ---- C API: arrays ---- */
    else if (Is(c, "arr")) {
        const char *op = a[1].s;
        int k = Num(a[2]);
        Array *r = arrs[k];
        if (!strcmp(op, "new")) {
            arrs[k] = malloc(sizeof(Array));
            InitArray(arrs[k], ApiContext());
        } else if (!strcmp(op, "newex")) {
            Tiny_Value vals[256];
            int n = 0;
            for (int i = 3; i < c->n; ++i) vals[n++] = ParseVal(apiThread, a[i]);
            arrs[k] = malloc(sizeof(Array));
            InitArrayEx(arrs[k], ApiContext(), n, vals);
        } else if (!strcmp(op, "push")) ArrayPush(r, ParseVal(apiThread, a[3]));
        else if (!strcmp(op, "pop") || !strcmp(op, "shift")) {
            Tiny_Value v = Tiny_Null;
            if (!strcmp(op, "pop")) ArrayPop(r, &v);
            else ArrayShift(r, &v);
            Tr("arr %s ", op);
            SerVal(v);
            Tr("\n");
        } else if (!strcmp(op, "insert")) ArrayInsert(r, Num(a[3]), ParseVal(apiThread, a[4]));
        else if (!strcmp(op, "remove")) ArrayRemove(r, Num(a[3]));
        else if (!strcmp(op, "set")) ArraySet(r, Num(a[3]), ParseVal(apiThread, a[4]));
        else if (!strcmp(op, "get")) {
            Tr("arr get ");
            SerVal(*ArrayGet(r, Num(a[3])));
            Tr("\n");
        } else if (!strcmp(op, "resize")) ArrayResize(r, Num(a[3]), ParseVal(apiThread, a[4]));
        else if (!strcmp(op, "clear")) ArrayClear(r);
        else if (!strcmp(op, "len")) Tr("arr len %d\n", ArrayLen(r));
        else if (!strcmp(op, "dump")) {
            Tr("arr dump");
            int n = ArrayLen(r);
            for (int i = 0; i < n; ++i) {
                Tr(" ");
                SerVal(*ArrayGet(r, i));
            }
            Tr("\n");
        } else if (!strcmp(op, "destroy")) {
            DestroyArray(r);
            free(r);
            arrs[k] = NULL;
        } else Bad("arr");
    }
    /* ---- C API: dicts ---- */
    else if (Is(c, "dict")) {
        const char *op = a[1].s;
        int k = Num(a[2]);
        Dict *d = dicts[k];
        if (!strcmp(op, "new")) {
            dicts[k] = malloc(sizeof(Dict));
            InitDict(dicts[k], ApiContext());
        } else if (!strcmp(op, "set")) DictSet(d, ParseVal(apiThread, a[3]), ParseVal(apiThread, a[4]));
        else if (!strcmp(op, "get")) {
            const Tiny_Value *v = DictGet(d, ParseVal(apiThread, a[3]));
            Tr("dict get ");
            if (v) SerVal(*v);
            else Tr("none");
            Tr("\n");
        } else if (!strcmp(op, "remove")) DictRemove(d, ParseVal(apiThread, a[3]));
        else if (!strcmp(op, "clear")) DictClear(d);
        else if (!strcmp(op, "destroy")) {
            DestroyDict(d);
            free(d);
            dicts[k] = NULL;
        } else Bad("dict");
    } else if (Is(c, "apithread")) {
        /* a thread of its own for heap values used with the C API */
        apiThread = Th(a[1])->t;
    } else if (Is(c, "apilive")) {
        if (apiCtx.live) Monitor("alloc: %zu blocks of arrays/dicts remain", apiCtx.live);
    }
    /* ---- C API: arena ---- */
    else if (Is(c, "arena")) {
        const char *op = a[1].s;
        int k = Num(a[2]);
        if (!strcmp(op, "new")) {
            memset(&AR[k].ctx, 0, sizeof(AR[k].ctx));
            AR[k].ctx.id = 910 + k;
            AR[k].n = 0;
            Tiny_InitArena(&AR[k].a, (Tiny_Context){VtAlloc, &AR[k].ctx});
            AR[k].live = true;
        } else if (!strcmp(op, "alloc")) {
            size_t size = (size_t)atol(a[3].s), align = (size_t)atol(a[4].s);
            unsigned char *p = Tiny_ArenaAlloc(&AR[k].a, size, align);
            if (!p) Monitor("arena: returned NULL for %zu bytes", size);
            if ((uintptr_t)p % align) Monitor("arena: block of %zu bytes not aligned to %zu", size, align);
            /* inside one of the blocks of its context? */
            bool inside = size == 0;
            for (Blk *b = AR[k].ctx.head; b && !inside; b = b->next)
                inside = p >= b->mem && p + size <= b->mem + b->size;
            if (!inside) Monitor("arena: block of %zu bytes lies outside of the memory allocated", size);
            for (int i = 0; i < AR[k].n; ++i) {
                if (size && AR[k].blk[i].n && p < AR[k].blk[i].p + AR[k].blk[i].n && AR[k].blk[i].p < p + size)
                    Monitor("arena: block %d (%zu bytes) overlaps block %d", AR[k].n, size, i);
            }
            if (AR[k].n >= MAXAB) Bad("arena blocks");
            int i = AR[k].n++;
            AR[k].blk[i].p = p;
            AR[k].blk[i].n = size;
            AR[k].blk[i].pat = (unsigned char)(i * 31 + 7);
            memset(p, AR[k].blk[i].pat, size);
        } else if (!strcmp(op, "verify")) {
            size_t bytes = 0;
            for (int i = 0; i < AR[k].n; ++i)
                for (size_t j = 0; j < AR[k].blk[i].n; ++j, ++bytes)
                    if (AR[k].blk[i].p[j] != AR[k].blk[i].pat)
                        Monitor("arena: content of block %d changed at byte %zu", i, j);
            Tr("arena ok blocks=%d bytes=%zu pages=%zu\n", AR[k].n, bytes, AR[k].ctx.live);
        } else if (!strcmp(op, "destroy")) {
            Tiny_DestroyArena(&AR[k].a);
            if (AR[k].ctx.live) Monitor("arena: %zu pages not returned", AR[k].ctx.live);
            AR[k].live = false;
        } else Bad("arena");
    }
    /* ---- value API ---- */
    else if (Is(c, "val")) { /* val t v: read a value back through every accessor */
        VThread *v = Th(a[1]);
        Tiny_Value x = ParseVal(v->t, a[2]);
        Tr("val ");
        SerVal(x);
        Tr(" null=%d bool=%d int=%" PRId64 " float=", Tiny_IsNull(x), Tiny_ToBool(x), (int64_t)Tiny_ToInt(x));
        SerVal(Tiny_NewFloat(Tiny_ToFloat(x)));
        Tr(" num=");
        SerVal(Tiny_NewFloat(Tiny_ToNumber(x)));
        const char *s = Tiny_ToString(x);
        Tr(" str=");
        if (s) {
            Tr("\"");
            TrEsc(s, Tiny_StringLen(x));
            Tr("\"");
        } else Tr("none");
        Tr(" len=%zu", Tiny_StringLen(x));
        Tr(" addr=%d prop=%d field=", Tiny_ToAddr(x) != NULL, Tiny_GetProp(x) != NULL);
        if (x.type != TINY_VAL_STRUCT) SerVal(Tiny_GetField(x, 0));
        Tr(" self=%d\n", Tiny_AreValuesEqual(x, x));
    } else if (Is(c, "eqm")) { /* eqm t v...: matrix of Tiny_AreValuesEqual */
        VThread *v = Th(a[1]);
        Tiny_Value x[300];
        int n = 0;
        for (int i = 2; i < c->n; ++i) x[n++] = ParseVal(v->t, a[i]);
        for (int i = 0; i < n; ++i) {
            Tr("eqm %d ", i);
            for (int j = 0; j < n; ++j) Tr("%d", Tiny_AreValuesEqual(x[i], x[j]));
            Tr("\n");
        }
    }
    /* ---- OS threads ---- */
    else if (Is(c, "side")) { /* side life cmd... : to be executed by Poke */
        if (sideCount >= MAXSIDE) Bad("too many side commands");
        sideCmds[sideCount++] = *c;
    } else if (Is(c, "pokes")) { /* pokes n k seed: one time out of n, up to k commands */
        pokeEvery = Num(a[1]);
        pokeMost = Num(a[2]);
        pokeRand = strtoull(a[3].s, NULL, 10) | 1;
    } else if (Is(c, "drain")) {
        while (sideNext < sideCount) SideOne();
    } else if (Is(c, "yield")) {
        sched_yield();
    } else {
        char msg[200];
        snprintf(msg, sizeof(msg), "unknown command %s", a[0].s);
        Bad(msg);
    }
}

static void RunCmds(Cmd *cmds, int n) {
    for (int i = 0; i < n; ++i) {
        Cmd *c = &cmds[i];
        if (Is(c, "par")) {
            inPar = true;
            laneCount = 0;
            continue;
        }
        if (Is(c, "endpar")) {
            inPar = false;
            RunLanes();
            continue;
        }
        if (inPar) { /* <lane> cmd... */
            int l = Num(c->tok[0]);
            if (l >= laneCount) laneCount = l + 1;
            Cmd *m = malloc(sizeof(Cmd));
            m->n = c->n - 1;
            m->tok = c->tok + 1;
            Lane *L = &lanes[l];
            if (L->n >= L->cap) {
                L->cap = L->cap ? L->cap * 2 : 16;
                L->cmds = realloc(L->cmds, sizeof(Cmd *) * L->cap);
            }
            L->cmds[L->n++] = m;
            continue;
        }
        Exec(c);
    }
}

/* ------------------------------------------------------------------ main */

static int Hex(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static void ParseLine(char *s, Cmd *c) {
    static Tok toks[MAXTOK];
    int n = 0;
    char *p = s;
    while (*p) {
        while (*p == ' ') ++p;
        if (!*p) break;
        if (n >= MAXTOK) Bad("too many tokens");
        char *start = p, *w = p;
        bool empty = *p == '~';
        while (*p && *p != ' ') {
            if (*p == '%') {
                *w++ = (char)(Hex(p[1]) * 16 + Hex(p[2]));
                p += 3;
            } else
                *w++ = *p++;
        }
        bool end = *p == 0;
        if (!end) ++p;
        /* "%-" style empty tokens are written as '~' */
        if (w == start + 1 && empty) w = start;
        *w = 0;
        toks[n].s = start;
        toks[n].n = w - start;
        n++;
        if (end) break;
    }
    c->n = n;
    c->tok = malloc(sizeof(Tok) * (n ? n : 1));
    memcpy(c->tok, toks, sizeof(Tok) * n);
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    /* vt CASEFILE OUTFILE [cpuSeconds] */
    int cpu = argc > 3 ? atoi(argv[3]) : 20;
    bool nofork = argc > 4 && !strcmp(argv[4], "nofork");
    FILE *f = fopen(argv[1], "rb");
    if (!f) return 2;
    fseek(f, 0, SEEK_END);
    long len = ftell(f);
    rewind(f);
    char *text = malloc(len + 1);
    if (fread(text, 1, len, f) != (size_t)len) return 2;
    text[len] = 0;
    fclose(f);
    FILE *out = fopen(argv[2], "wb");
    if (!out) return 2;

    size_t *shared = mmap(NULL, TRACE_CAP + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shared == MAP_FAILED) return 2;
    mainTrace.buf = (char *)shared + 4096;
    mainTrace.cap = TRACE_CAP;
    mainTrace.len = shared;
#ifdef VT_MSAN
    __msan_unpoison(shared, TRACE_CAP + 4096);
#endif

    char *p = text;
    int hangs = 0;
    while (*p) {
        char *nl = strchr(p, '\n');
        if (!nl) break;
        if (strncmp(p, "case ", 5) != 0) return 3;
        char *idline = p + 5;
        *nl = 0;
        char *body = nl + 1;
        char *end = strncmp(body, "endcase\n", 8) == 0 ? body : strstr(body, "\nendcase\n");
        if (!end) return 3;
        if (end != body) ++end;
        if (hangs >= 2) { /* the rest would take too long */
            fprintf(out, "case %s\nend skipped\n", idline);
            p = end + 8;
            if (p > text + len) break;
            continue;
        }
        *shared = 0;
        int efd = memfd_create("err", 0);
        int ofd = memfd_create("out", 0);
        fflush(out);
        pid_t pid = nofork ? 0 : fork();
        if (pid == 0) {
            if (!nofork) {
                dup2(efd, 2);
                dup2(ofd, 1);
                outFd = ofd;
                struct rlimit rl = {cpu, cpu + 2};
                setrlimit(RLIMIT_CPU, &rl);
                struct rlimit core = {0, 0};
                setrlimit(RLIMIT_CORE, &core);
                struct rlimit nof = {200, 200};
                setrlimit(RLIMIT_NOFILE, &nof);
                struct rlimit fsz = {(rlim_t)256 << 20, (rlim_t)256 << 20};
                setrlimit(RLIMIT_FSIZE, &fsz);
                alarm(cpu * 6 + 30);
            } else {
                outFd = ofd;
            }
            setvbuf(stdout, NULL, _IOFBF, 65536);
            *end = 0;
            int n = 0, cap = 64;
            Cmd *cmds = malloc(sizeof(Cmd) * cap);
            char *q = body;
            while (q < end) {
                char *e = strchr(q, '\n');
                if (e) *e = 0;
                if (*q) {
                    if (n >= cap) {
                        cap *= 2;
                        cmds = realloc(cmds, sizeof(Cmd) * cap);
                    }
                    ParseLine(q, &cmds[n]);
                    if (cmds[n].n) ++n;
                }
                if (!e) break;
                q = e + 1;
            }
            RunCmds(cmds, n);
            fflush(stdout);
            if (nofork) {
                fwrite(mainTrace.buf, 1, *shared, stderr);
            }
            Tr("finished\n");
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        fprintf(out, "case %s\n", idline);
        fwrite(mainTrace.buf, 1, *shared, out);
        if (*shared && mainTrace.buf[*shared - 1] != '\n') fputc('\n', out);
        bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        off_t esz = lseek(efd, 0, SEEK_END);
        if (!clean && esz > 0) {
            char ebuf[6001];
            ssize_t r = pread(efd, ebuf, 6000, 0);
            if (r < 0) r = 0;
            fputs("stderr ", out);
            for (ssize_t i = 0; i < r; ++i) {
                unsigned char ch = ebuf[i];
                if (ch == '\n') fputs("\nstderr ", out);
                else if (ch >= 32 && ch < 127) fputc(ch, out);
                else fprintf(out, "\\x%02x", ch);
            }
            fputc('\n', out);
        }
        close(efd);
        close(ofd);
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) ++hangs;
        if (WIFSIGNALED(st)) fprintf(out, "end sig %d\n", WTERMSIG(st));
        else fprintf(out, "end exit %d\n", WEXITSTATUS(st));
        p = end + 8;
        if (p > text + len) break;
    }
    fprintf(out, "alldone\n");
    fclose(out);
    return 0;
}
