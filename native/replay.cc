// Native replay runtime: runs a harness against the real, natively compiled
// code with the values of one solver model, in place of the symbolic engine.
// Usage: replay VALUES ENTRY   (parameters come from VKPARAM_<name>)
#include "../model/vk.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <memory>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <system_error>

#if defined(VK_TSAN)
extern "C" { void __tsan_acquire(void *); void __tsan_release(void *); void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int); void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int); }
#endif
#if defined(VK_ASAN)
extern "C" { void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t); }
#endif

#if defined(VK_ASAN)
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=42:abort_on_error=0:handle_abort=0"; }
#endif

struct Rec { char name[64]; unsigned w; unsigned long v; };
static Rec *recs; static int nrecs, pos; static bool trace; static int exhausted;
static char *valuesFile;
static void out(const char *s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
[[noreturn]] static void finish(const char *what, const char *label, int code) { char b[400]; snprintf(b, sizeof b, "REPLAY %s %s\n", what, label); out(b); syscall(SYS_exit_group, code); __builtin_unreachable(); }
static void load(const char *f) {
    FILE *fp = fopen(f, "r"); if (!fp) { perror(f); exit(9); }
    recs = (Rec *)calloc(100000, sizeof(Rec)); static char line[1 << 20];
    while (fgets(line, sizeof line, fp) && nrecs < 100000) { if (line[0] == '#' || line[0] == '\n') continue; Rec &r = recs[nrecs]; char *v = strrchr(line, ' '); if (!v) continue; *v++ = 0; char *w = strrchr(line, ' '); if (!w) continue; *w++ = 0; snprintf(r.name, sizeof r.name, "%s", line); r.w = (unsigned)atoi(w); r.v = strtoul(v, nullptr, 10); ++nrecs; }
    fclose(fp);
}
extern "C" {
void vkm_atomic_hook();
void vkr_rmw_hook() { static const bool on = getenv("VKPARAM__atomic") != nullptr; if (on) vkm_atomic_hook(); }
uint64_t vk_val(unsigned bits, const char *name) {
    if (pos >= nrecs) { ++exhausted; return 0; }
    Rec &r = recs[pos++]; if (strcmp(r.name, name) || r.w != bits) { char b[200]; snprintf(b, sizeof b, "wanted %s/%u, recorded %s/%u at %d", name, bits, r.name, r.w, pos - 1); finish("DIVERGED", b, 5); }
    if (trace) fprintf(stderr, "[t%d] %s = %lu\n", vk_thread_self(), name, r.v);
    return r.v;
}
uint64_t vk_choose(unsigned n, const char *name) { uint64_t v = vk_val(32, name); if (v >= n) finish("DIVERGED", name, 5); return v; }
void vk_assume(bool c) { if (!c) finish("DIVERGED", "assumption", 5); }
void vk_assert_(bool c, const char *l) { if (!c) finish("VIOLATED", l, 42); }
void vk_fail(const char *l) { finish("VIOLATED", l, 42); }
void vk_reach(const char *l) { if (trace) fprintf(stderr, "[t%d] reach %s\n", vk_thread_self(), l); }
void vk_exit() { finish("COMPLETED", pos < nrecs ? "values-left" : exhausted ? "values-short" : "", 0); }
uint64_t vk_conc(uint64_t v) { return v; }
void vk_note(const char *n, uint64_t v) { if (trace) fprintf(stderr, "[t%d] note %s = %lu\n", vk_thread_self(), n, v); }
uint64_t vk_param(const char *n, uint64_t d) { char b[100] = "VKPARAM_"; strncat(b, n, 80); const char *e = getenv(b); return e ? (uint64_t)atoll(e) : d; }
int vk_is_engine() { return 0; }
int vk_is_sym(uint64_t) { return 0; }
uint64_t vk_next_bkt(uint64_t) { abort(); }
char **vkm_environ_ptr() { return environ; }

// ---- threads: real threads, of which exactly one runs, handed over explicitly
struct NT { void (*fn)(void *); void *arg; std::atomic<int> go; };
static NT nts[128]; static int nnt = 1; static thread_local int selfId;
static void wake(int t) { nts[t].go.store(1, std::memory_order_release); syscall(SYS_futex, &nts[t].go, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
static void sleepSelf() { int me = selfId; while (nts[me].go.load(std::memory_order_acquire) == 0) syscall(SYS_futex, &nts[me].go, FUTEX_WAIT, 0, nullptr, nullptr, 0); nts[me].go.store(0, std::memory_order_relaxed); }
static void *ntMain(void *a) { selfId = (int)(long)a; sleepSelf(); nts[selfId].fn(nts[selfId].arg); for (;;) pause(); }
int vk_thread_create(void (*fn)(void *), void *arg) {
    int id = nnt++; nts[id].fn = fn; nts[id].arg = arg; pthread_t p; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (pthread_create(&p, &at, ntMain, (void *)(long)id)) finish("ERROR", "thread", 9);
    return id;
}
void vk_thread_switch(int t) { if (t == selfId) return; if (trace) fprintf(stderr, "[t%d] -> t%d\n", selfId, t); wake(t); sleepSelf(); }
int vk_thread_self() { return selfId; }
#if defined(VK_TSAN)
void vk_hb_release(uint64_t k) { __tsan_release((void *)k); }
void vk_hb_acquire(uint64_t k) { __tsan_acquire((void *)k); }
static thread_local bool ignoring;
void vk_race(bool on) { if (on != ignoring) return; ignoring = !on; if (on) { AnnotateIgnoreReadsEnd("", 0); AnnotateIgnoreWritesEnd("", 0); } else { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } }
const char *__tsan_default_options() { return "halt_on_error=1:exitcode=42:report_thread_leaks=0:history_size=7"; }
#else
void vk_hb_release(uint64_t) {}
void vk_hb_acquire(uint64_t) {}
void vk_race(bool) {}
#endif
void *vk_malloc(size_t n) { return calloc(n ? n : 1, 1); }

// ---- heap: addresses grow monotonically and are never reused, as in the engine
static uint64_t blkSeq = 0;
struct Hdr { size_t n; uint64_t seq; uint64_t live; uint64_t magic; };
static char *arena, *acur; static const size_t ARENA = 1ULL << 32;
static Hdr *hdrs[1 << 20];
static int fillByte = 0xA5;
#if defined(VK_ASAN) || defined(VK_PLAIN)
static void *bump(size_t n) {
    if (!arena) { arena = acur = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (getenv("VKFILL")) fillByte = atoi(getenv("VKFILL"));
#if defined(VK_ASAN)
        __asan_poison_memory_region(arena, 1 << 28);
#endif
    }
    char *h = acur; size_t tot = (sizeof(Hdr) + 64 + n + 64 + 63) & ~63ULL; if (n > (1 << 28) || acur + tot > arena + (1 << 28)) throw std::bad_alloc(); acur += tot;
#if defined(VK_ASAN)
    __asan_unpoison_memory_region(h, sizeof(Hdr)); __asan_unpoison_memory_region(h + sizeof(Hdr) + 64, n);
#endif
    Hdr *H = (Hdr *)h; H->n = n; H->seq = blkSeq; H->live = 1; H->magic = 0x1234567890abcdefULL; hdrs[blkSeq++ & ((1 << 20) - 1)] = H;
    memset(h + sizeof(Hdr) + 64, fillByte, n);
    return h + sizeof(Hdr) + 64;
}
static void unbump(void *p) {
    if (!p) return; if ((char *)p < arena || (char *)p >= acur) finish("VIOLATED", "memory (bad free)", 42);
    Hdr *H = (Hdr *)((char *)p - 64 - sizeof(Hdr)); if (H->magic != 0x1234567890abcdefULL) finish("VIOLATED", "memory (bad free)", 42);
    if (!H->live) finish("VIOLATED", "memory (double free)", 42);
    H->live = 0;
#if defined(VK_ASAN)
    __asan_poison_memory_region(p, H->n);
#else
    memset(p, 0xDD, H->n);
#endif
}
uint64_t vk_heap_blocks(uint64_t since) { if (since == ~0ULL) return blkSeq; uint64_t c = 0; for (uint64_t i = since; i < blkSeq; ++i) if (hdrs[i]->live) ++c; return c; }
#else
uint64_t vk_heap_blocks(uint64_t) { return 0; }
#endif
}
#if defined(VK_ASAN) || defined(VK_PLAIN)
void *operator new(size_t n) { return bump(n); }
void *operator new[](size_t n) { return bump(n); }
void operator delete(void *p) noexcept { unbump(p); }
void operator delete[](void *p) noexcept { unbump(p); }
void operator delete(void *p, size_t) noexcept { unbump(p); }
void operator delete[](void *p, size_t) noexcept { unbump(p); }
#endif

// ---- std::thread
extern "C" int vkm_pthread_create(unsigned long *, const void *, void *(*)(void *), void *);
extern "C" int vkm_pthread_join(unsigned long, void **);
extern "C" int vkm_pthread_detach(unsigned long);
struct StateLike { virtual ~StateLike(); virtual void run() = 0; };
static void *thrEntry(void *p) { StateLike *s = (StateLike *)p; s->run(); (*(void (***)(void *))s)[1](s); return nullptr; }
extern "C" {
void vkm__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(unsigned long *self, void **st, void (*)()) { unsigned long id; int r = vkm_pthread_create(&id, nullptr, thrEntry, *st); if (r) throw std::system_error(r, std::generic_category()); *st = nullptr; *self = id; }
void vkm__ZNSt6thread4joinEv(unsigned long *t) { int e = EINVAL; if (*t) e = vkm_pthread_join(*t, nullptr); if (e) throw std::system_error(e, std::generic_category()); *t = 0; }
void vkm__ZNSt6thread6detachEv(unsigned long *t) { int e = EINVAL; if (*t) e = vkm_pthread_detach(*t); if (e) throw std::system_error(e, std::generic_category()); *t = 0; }
}

static void onTerminate() { finish("VIOLATED", "terminate", 42); }
static void onSig(int s) { finish("VIOLATED", s == SIGSEGV ? "memory (segv)" : s == SIGALRM ? "hang" : s == SIGABRT ? "abort" : "signal", 42); }
extern "C" void vkm_boot(int);
__attribute__((constructor(101))) static void early() { vkm_boot(1); }
// no instrumentation may assume a larger stack than a thread has
int main(int argc, char **argv) {
    if (argc < 3) return 9;
    load(argv[1]); trace = getenv("VKTRACE") != nullptr;
    std::set_terminate(onTerminate); signal(SIGABRT, onSig); signal(SIGALRM, onSig); signal(SIGFPE, onSig); signal(SIGILL, onSig); signal(SIGBUS, onSig);
#if !defined(VK_ASAN)
    signal(SIGSEGV, onSig);
#endif
    void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]); if (!entry) { fprintf(stderr, "no entry %s\n", argv[2]); return 9; }
    alarm(20);
    vkm_boot(0);
    entry();
    vk_exit();
}
