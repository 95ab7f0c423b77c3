#include "net.h"
#include "cppev/ipc.h"
#include "cppev/lock.h"
using namespace cppev;
static void setup() { calm(); vkw.park_boot = 1; vkw.preempt_ops = VKP_SEM | VKP_THREAD; }
static const char *NAME = "/n";
// ---- semaphores
static semaphore *gs; static Cnt taken, creators, made, given; static int ask;
static void *s_take(void *) { gs->acquire(ask); taken.v.fetch_add(ask, std::memory_order_relaxed); return nullptr; }
ENTRY sem_count() {     // tokens are neither lost nor invented
    setup(); semaphore s(NAME); VK_ASSERT(s.creator(), "the first to open a semaphore creates it"); VK_ASSERT(vkw_sem_value(NAME) == 0, "a new semaphore is empty"); VK_ASSERT(!s.try_acquire(), "nothing can be taken from an empty semaphore");
    int have = 0;
    for (int i = 0, n = param("ops", 3); i < n; ++i) {
        int k = choose(3, "op"), c = range(0, 2, "count");
        if (k == 0) { s.release(c); have += c; vk_reach("release"); }
        else if (k == 1) { bool g = s.try_acquire(); VK_ASSERT(g == (have > 0), "trying succeeds exactly when there is something to take"); have -= g; vk_reach(g ? "took" : "empty"); }
        else { if (c > have) { s.release(c - have); have = c; } s.acquire(c); have -= c; vk_reach("acquire"); }
        VK_ASSERT(vkw_sem_value(NAME) == have, "a semaphore counts what was released and not yet taken");
    }
    if (choose(2, "defaults")) { s.release(); s.acquire(); VK_ASSERT(vkw_sem_value(NAME) == have, "a semaphore counts what was released and not yet taken"); }
    if (choose(2, "by another handle")) { semaphore t(NAME); VK_ASSERT(!t.creator(), "who opens an existing semaphore is not its creator"); t.unlink(); } else s.unlink();
    VK_ASSERT(vkw_sem_value(NAME) == -1, "unlinking removes the name");
    s.release(1); VK_ASSERT(s.try_acquire(), "an unlinked semaphore still works"); semaphore u(NAME); VK_ASSERT(u.creator() && vkw_sem_value(NAME) == 0, "an unlinked name can be created again");
}
ENTRY sem_block() {     // taking waits until there is enough; interruptions change nothing
    setup(); semaphore s(NAME); gs = &s; int n = range(1, param("takers", 2), "takers"); ask = range(1, 2, "count"); vkw.preempt = param("preempt", 1); vkw.eintr = param("eintr", 1);
    Thr t[3]; for (int i = 0; i < n; ++i) t[i].start([](void *) -> void * { s_take(nullptr); return nullptr; }, nullptr);
    int short_by = choose(2, "one short at first"), total = n * ask;
    s.release(total - short_by);
    if (short_by) { vkw_pause(); VK_ASSERT(taken <= total - ask, "a taker waits until there is enough"); VK_ASSERT(vkw_threads_alive() >= 1, "a taker waits until there is enough"); s.release(1); }
    for (int i = 0; i < n; ++i) t[i].join();
    VK_ASSERT(taken == total && vkw_sem_value(NAME) == 0, "everything released can be taken, exactly once"); vk_reach("taken"); if (vkw.eintr == 0) vk_reach("interrupted");
}
static void *s_give(void *) { gs->release(2); return nullptr; }
ENTRY sem_givers() {    // several threads release and take at once
    setup(); semaphore s(NAME), u("/u"); gs = &s; vkw.preempt = param("preempt", 1); ask = 2; Thr t[4]; for (int i = 0; i < 4; ++i) t[i].start(i < 2 ? s_give : s_take, nullptr); u.release(1); VK_ASSERT(u.try_acquire(), "trying succeeds exactly when there is something to take");
    for (Thr &x : t) x.join(); VK_ASSERT(taken == 4 && vkw_sem_value(NAME) == 0 && vkw_sem_value("/u") == 0, "everything released can be taken, exactly once"); vk_reach("at once");
}
ENTRY sem_many() {      // many takers, many tokens
    setup(); vkw.order = 1 + choose(3, "order"); semaphore s(NAME); gs = &s; ask = range(1, 3, "count"); int n = param("many", 6); static Thr t[12];
    for (int i = 0; i < n; ++i) { t[i].start([](void *) -> void * { s_take(nullptr); return nullptr; }, nullptr); vkw_pause(); }
    VK_ASSERT(taken == 0, "a taker waits until there is enough");
    int by = choose(2, "one by one"); if (by) for (int i = 0; i < n * ask; ++i) { s.release(1); vkw_pause(); VK_ASSERT(taken <= i + 1, "nothing is taken that was not released"); } else s.release(n * ask);
    for (int i = 0; i < n; ++i) t[i].join(); VK_ASSERT(taken == n * ask && vkw_sem_value(NAME) == 0, "everything released can be taken, exactly once");
    int lots = param("lots", 700); s.release(lots); VK_ASSERT(vkw_sem_value(NAME) == lots, "a semaphore counts what was released and not yet taken"); s.acquire(lots - 300); for (int i = 0; i < 300; ++i) VK_ASSERT(s.try_acquire(), "trying succeeds exactly when there is something to take"); VK_ASSERT(!s.try_acquire() && vkw_sem_value(NAME) == 0, "a semaphore counts what was released and not yet taken"); vk_reach("many");
}
static void *s_open(void *) { vkw_new_proc(); semaphore s(NAME); creators.v.fetch_add(s.creator(), std::memory_order_relaxed); ++made; s.release(); vkw_block_until([](void *) { return made >= 2; }, nullptr); return nullptr; }
ENTRY sem_create() {    // processes opening the same name meet at one semaphore, one of them created it
    setup(); vkw.preempt = param("preempt", 2); Thr t[2]; t[0].start(s_open, nullptr); t[1].start(s_open, nullptr); t[0].join(); t[1].join();
    VK_ASSERT(creators == 1, "exactly one of the openers is the creator"); VK_ASSERT(vkw_sem_value(NAME) == 2, "all openers share one semaphore"); VK_ASSERT(vkw_sems_open() == 0, "every handle is released once");
    { semaphore s(NAME); VK_ASSERT(!s.creator(), "who opens an existing semaphore is not its creator"); s.acquire(2); VK_ASSERT(vkw_sem_value(NAME) == 0, "the count outlives the handles"); s.unlink(); } vk_reach("shared");
}
ENTRY sem_faults() {
    setup(); vkw.fault_ops = VKF_SEMOPEN | VKF_SEM; vkw.faults = 1; int f0;
    std::unique_ptr<semaphore> s; int r = throws_sys([&] { s.reset(new semaphore(NAME)); });
    if (vkw.faults == 0) { VK_ASSERT(r == 1 && (g_code == EMFILE || g_code == EACCES), "failing to open is reported with its error number"); VK_ASSERT(vkw_sems_open() == 0, "a failed opening leaves nothing behind"); vk_reach("open fault"); return; } VK_ASSERT(r == 0, "opening works");
    f0 = vkw.faults; r = throws_sys([&] { s->release(2); }); if (vkw.faults < f0) { VK_ASSERT(r == 1 && g_code == EOVERFLOW, "failing to release is reported"); vk_reach("release fault"); return; }
    r = throws_sys([&] { s->acquire(1); }); if (vkw.faults < f0) { VK_ASSERT(r == 1 && g_code == EINVAL, "failing to take is reported"); vk_reach("acquire fault"); return; }
    bool g = false; r = throws_sys([&] { g = s->try_acquire(); }); if (vkw.faults < f0) { VK_ASSERT(r == 1 && g_code == EINVAL, "failing to take is reported"); vk_reach("try fault"); return; } VK_ASSERT(g, "trying succeeds exactly when there is something to take");
    r = throws_sys([&] { s->unlink(); }); if (vkw.faults < f0) { VK_ASSERT(r == 1 && g_code == EACCES, "failing to unlink is reported"); return; }
    vkw.faults = 0;
    VK_ASSERT(throws_sys([&] { s->unlink(); }) == 1 && g_code == ENOENT, "unlinking twice is reported");
}
// names that agree in everything but the end, or of which one begins like the other
static const char *pair_[][2] = {{"/a_rather_long_name_of_an_object_1", "/a_rather_long_name_of_an_object_2"}, {"/n", "/nn"}, {"/n.1", "/n.2"}, {"/x1", "/y1"}, {"/Name", "/name"}};
ENTRY sem_names() {
    setup(); int k = choose(5, "names"); bool gone = choose(2, "unlink the first"); semaphore a(pair_[k][0]); a.release(2); semaphore b(pair_[k][1]); VK_ASSERT(a.creator() && b.creator(), "different names are different semaphores"); VK_ASSERT(!b.try_acquire(), "different names are different semaphores"); b.release(1); semaphore c(pair_[k][0]); VK_ASSERT(!c.creator(), "who opens an existing semaphore is not its creator");
    VK_ASSERT(vkw_sem_value(pair_[k][0]) == 2 && vkw_sem_value(pair_[k][1]) == 1, "a semaphore counts what was released and not yet taken"); (gone ? a : b).unlink(); VK_ASSERT((vkw_sem_value(pair_[k][0]) == -1) == gone && (vkw_sem_value(pair_[k][1]) == -1) == !gone, "unlinking removes the name"); vk_reach("two");
}
ENTRY shm_names() {
    setup(); int k = choose(5, "names"); bool gone = choose(2, "unlink the first"); shared_memory a(pair_[k][0], 4); ((char *)a.ptr())[0] = 7; shared_memory b(pair_[k][1], 4); VK_ASSERT(a.creator() && b.creator(), "different names are different memory"); VK_ASSERT(((char *)b.ptr())[0] == 0, "new memory is zero"); ((char *)b.ptr())[0] = 9; shared_memory c(pair_[k][0], 4); VK_ASSERT(!c.creator() && ((char *)c.ptr())[0] == 7, "opening existing memory keeps its content");
    (gone ? a : b).unlink(); VK_ASSERT(vkw_shm_exists(pair_[k][0]) == !gone && vkw_shm_exists(pair_[k][1]) == gone, "unlinking removes the name"); vk_reach("two");
}
template <typename T> static void moves(T a, T b, int (*live)(), const char *leak) {
    int base = live(); bool ca = a.creator(), cb = b.creator();
    switch (choose(5, "move")) {
    case 4: { T c(std::move(a)); throws_sys([&] { a.unlink(); }); VK_ASSERT(throws_sys([&] { c.unlink(); }) == 0, "a moved-from handle leaves the name alone"); vk_reach("moved from"); break; }
    case 0: { T c(std::move(a)); VK_ASSERT(c.creator() == ca && !a.creator(), "a move carries everything over"); VK_ASSERT(live() == base, leak); vk_reach("move construct"); { T d(std::move(c)); } VK_ASSERT(live() == base - 1, "a moved handle is released once"); break; }
    case 1: { a = std::move(b); VK_ASSERT(a.creator() == cb && !b.creator(), "a move carries everything over"); VK_ASSERT(live() == base - 1, leak); vk_reach("move assign"); break; }
    case 2: { T &r = a; a = std::move(r); VK_ASSERT(live() == base && a.creator() == ca, "moving onto itself changes nothing"); vk_reach("self move"); break; }
    case 3: { T c(std::move(a)); a = std::move(c); VK_ASSERT(live() == base && a.creator() == ca, "a moved-from handle can be assigned to"); vk_reach("back"); break; }
    }
}
ENTRY sem_move() { setup(); int known = choose(4, "known names"); { if (known & 1) semaphore a(NAME); if (known & 2) semaphore b("/m"); } const char *other = choose(2, "same name") ? NAME : "/m"; moves(semaphore(NAME), semaphore(other), vkw_sems_open, "a move assignment releases the replaced handle"); VK_ASSERT(vkw_sems_open() == 0, "every handle is released once"); }
// ---- shared memory
static int live_shm() { return vkw_maps(); }
ENTRY shm_move() { setup(); vkw.shm_cap = 64; int fds = vkw_open_fds(); int n = range(1, 2, "size"); int known = choose(4, "known names"); { if (known & 1) shared_memory a(NAME, n); if (known & 2) shared_memory b("/m", 4); } const char *other = choose(2, "same name") ? NAME : "/m"; moves(shared_memory(NAME, n), shared_memory(other, 4), live_shm, "a move assignment releases the replaced mapping"); VK_ASSERT(vkw_maps() == 0 && vkw.bad_unmap == 0 && vkw_open_fds() == fds, "every mapping is released once"); }
ENTRY shm_basic() {
    setup(); int n = range(1, param("size", 4), "size"), base = vkw_open_fds();
    {
        shared_memory a(NAME, n); VK_ASSERT(a.creator() && a.size() == n && a.ptr(), "the first to open creates the memory");
        VK_ASSERT(vkw_shm_size(NAME) >= n, "the whole size is usable"); char *p = (char *)a.ptr(); int z = 0; for (int i = 0; i < n; ++i) z |= p[i]; VK_ASSERT(z == 0, "new memory is zero");
        std::string d = anystr(n, "byte"); memcpy(p, d.data(), n);
        shared_memory b(NAME, n); VK_ASSERT(!b.creator() && b.size() == n, "who opens existing memory is not its creator"); VK_ASSERT(same((char *)b.ptr(), d.data(), n), "opening existing memory keeps its content"); VK_ASSERT(vkw_open_fds() == base, "no descriptor stays open");
        ((char *)b.ptr())[n - 1] = (char)u8("other"); VK_ASSERT(p[n - 1] == ((char *)b.ptr())[n - 1], "all handles see the same memory");
        if (choose(2, "unlink")) { b.unlink(); VK_ASSERT(!vkw_shm_exists(NAME), "unlinking removes the name"); VK_ASSERT(p[n - 1] == ((char *)b.ptr())[n - 1], "unlinked memory stays usable"); VK_ASSERT(throws_sys([&] { a.unlink(); }) == 1 && g_code == ENOENT, "unlinking twice is reported"); shared_memory c(NAME, n); VK_ASSERT(c.creator(), "an unlinked name can be created again"); c.unlink(); vk_reach("unlinked"); }
    }
    VK_ASSERT(vkw_maps() == 0 && vkw.bad_unmap == 0 && vkw_open_fds() == base, "every mapping is released once");
    vk_reach("done");
}
ENTRY shm_large() {     // memory of several pages
    setup(); static const int sizes[] = {4095, 4096, 4097, 8192, 12289}; int n = sizes[choose(5, "size")];
    { shared_memory a(NAME, n), b(NAME, n); VK_ASSERT(a.size() == n && b.size() == n && a.creator() && !b.creator() && vkw_shm_size(NAME) >= n, "the whole size is usable");
      char *p = (char *)a.ptr(), *q = (char *)b.ptr(); for (int i = 0; i < n; i += 511) { p[i] = (char)(i % 250 + 1); VK_ASSERT(q[i] == (char)(i % 250 + 1), "all handles see the same memory"); } q[n - 1] = 77; q[0] = 66; VK_ASSERT(p[n - 1] == 77 && p[0] == 66, "all handles see the same memory");
      { shared_memory c(NAME, n); VK_ASSERT(((char *)c.ptr())[n - 1] == 77 && ((char *)c.ptr())[0] == 66, "opening existing memory keeps its content"); } a.unlink(); }
    VK_ASSERT(vkw_maps() == 0 && vkw.bad_unmap == 0, "every mapping is released once"); vk_reach("large");
}
ENTRY shm_sizes() {     // processes that ask for different sizes of the same memory
    setup(); vkw.shm_cap = 64; int n = range(1, 4, "size"), m = choose(2, "large") ? 40 : range(1, 8, "other size"), big = std::max(n, m);
    {
        shared_memory a(NAME, n); std::string d = anystr(n, "byte"); char *p = (char *)a.ptr(); memcpy(p, d.data(), n);
        shared_memory b(NAME, m); char *q = (char *)b.ptr(); VK_ASSERT(a.creator() && !b.creator() && a.size() == n && b.size() == m, "who opens existing memory is not its creator"); VK_ASSERT(vkw_shm_size(NAME) >= big, "the whole size is usable for every handle");
        VK_ASSERT(same(p, d.data(), n) && same(q, d.data(), std::min(n, m)), "opening existing memory keeps its content"); int z = 0; for (int i = n; i < m; ++i) z |= q[i]; VK_ASSERT(z == 0, "new memory is zero"); for (int i = n; i < m; ++i) q[i] = (char)(i + 1);
        shared_memory c(NAME, 1 + choose(2, "third size")), e(NAME, big); char *r = (char *)e.ptr(); VK_ASSERT(same(r, d.data(), n) && vkw_shm_size(NAME) >= big, "opening existing memory keeps its content"); for (int i = n; i < m; ++i) VK_ASSERT(r[i] == (char)(i + 1), "opening existing memory keeps its content"); vk_reach(m > n ? "larger" : "not larger");
    }
    VK_ASSERT(vkw_maps() == 0 && vkw.bad_unmap == 0, "every mapping is released once");
}
struct Obj { int a; char b; Obj(int x, char y) : a(x), b(y) { } };
ENTRY shm_construct() { setup(); int v = (int)u32("value"); char c = (char)u8("char"); shared_memory m(NAME, sizeof(Obj)); Obj *o = m.construct<Obj>(v, c); VK_ASSERT((void *)o == m.ptr() && o->a == v && o->b == c, "an object is constructed in the memory"); shared_memory k(NAME, sizeof(Obj)); VK_ASSERT(((Obj *)k.ptr())->a == v, "a constructed object is shared"); vk_reach("constructed"); }
static std::atomic<int> *cells(shared_memory &m) { return (std::atomic<int> *)m.ptr(); }
static void *m_open(void *a) {
    long i = (long)a; vkw_new_proc(); int fds = vkw_open_fds(); shared_memory m(NAME, 8); creators.v.fetch_add(m.creator(), std::memory_order_relaxed);
    VK_ASSERT(vkw_shm_size(NAME) >= 8, "the whole size is usable as soon as the memory is open"); VK_ASSERT(cells(m)[i] == 0, "new memory is zero");
    cells(m)[i] = 5; ++made; vkw_block_until([](void *) { return made >= ask; }, nullptr);
    for (int k = 0; k < ask; ++k) VK_ASSERT(cells(m)[k] == 5, "nothing written to the memory is lost"); VK_ASSERT(vkw_open_fds() == fds, "no descriptor stays open"); return nullptr;
}
ENTRY shm_create() {    // processes opening the same name at the same time
    setup(); ask = 2; vkw.preempt = param("preempt", 2); Thr t[2]; for (long i = 0; i < ask; ++i) t[i].start(m_open, (void *)i); for (int i = 0; i < ask; ++i) t[i].join();
    VK_ASSERT(creators == 1, "exactly one of the openers is the creator"); VK_ASSERT(vkw_maps() == 0, "every mapping is released once"); vk_reach("shared");
}
ENTRY shm_faults() {
    setup(); int base = vkw_open_fds(); bool exists = choose(2, "exists"); std::unique_ptr<shared_memory> first; if (exists) { first.reset(new shared_memory(NAME, 4)); ((char *)first->ptr())[2] = 9; }
    vkw.fault_ops = VKF_SHM | VKF_FTRUNC | VKF_MMAP; vkw.faults = 1; int m0 = vkw_maps();
    std::unique_ptr<shared_memory> s; int r = throws_sys([&] { s.reset(new shared_memory(NAME, 4)); });
    if (vkw.faults) { VK_ASSERT(r == 0 && s->creator() == !exists, "opening works"); return; }
    VK_ASSERT(r == 1 && (g_code == EMFILE || g_code == EACCES || g_code == ENOSPC || g_code == ENOMEM), "failing to open is reported with its error number"); VK_ASSERT(vkw_open_fds() == base && vkw_maps() == m0, "a failed opening leaves no descriptor and no mapping behind"); vk_reach("fault");
    if (exists) VK_ASSERT(vkw_shm_exists(NAME) && ((char *)first->ptr())[2] == 9, "a failed opening does not disturb existing memory");
    shared_memory again(NAME, 4); VK_ASSERT(vkw_shm_size(NAME) >= 4 && ((char *)again.ptr())[3] == 0, "opening works after a failure"); if (!exists) VK_ASSERT(again.creator(), "a failed creation leaves no memory behind");
}
