#include "h.h"
#include "cppev/nio.h"
#include "cppev/event_loop.h"
#include "cppev/sysconfig.h"
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
using namespace cppev;

struct Bytes { char d[96]; int b = 0, e = 0; int size() const { return e - b; } void put(char c) { d[e++] = c; } };
static void copyout(Bytes &to, Bytes &from, int n) { for (int i = 0; i < n; ++i) to.put(from.d[from.b++]); }

static sockaddr_un unix_addr(const char *p) { sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, p); return a; }
// connected raw stream sockets; a is non-blocking afterwards
static void raw_pair(int fd[2]) {
    sockaddr_un a = unix_addr("/raw");
    int l = ::socket(AF_UNIX, SOCK_STREAM, 0); ::bind(l, (sockaddr *)&a, sizeof a); ::listen(l, 8);
    fd[0] = ::socket(AF_UNIX, SOCK_STREAM, 0); ::connect(fd[0], (sockaddr *)&a, sizeof a);
    fd[1] = ::accept(l, nullptr, nullptr); ::close(l); ::unlink("/raw");
}
static int arm_eintr, arm_shorts, arm_faults;
static void arm(bool on) {   // environment events only while the code under test runs
    if (on) { vkw.eintr = arm_eintr; vkw.shorts = arm_shorts; vkw.faults = arm_faults; }
    else { arm_eintr = vkw.eintr; arm_shorts = vkw.shorts; arm_faults = vkw.faults; vkw.eintr = vkw.shorts = vkw.faults = 0; }
}
static void env(int e, int s, int f, uint64_t ops) { arm_eintr = e; arm_shorts = s; arm_faults = f; vkw.fault_ops = ops; vkw.sigpipe_kills = 0; vkw.eintr = vkw.shorts = vkw.faults = 0; }

// ---------------------------------------------------------------- reading
ENTRY nio_read() {
    int maxlen = param("maxlen", 2), steps = param("steps", 3), kind = choose(2, "kind");
    env(param("eintr", 1), param("shorts", 1), param("faults", 0), VKF_READ);
    int fd[2];
    if (kind == 0) { ::pipe(fd); } else raw_pair(fd);
    nstream s(fd[0]);
    int peer = fd[1];
    Bytes queued, got;
    bool closed = false, eof = false, reset = false, failed = false;
    int pre = choose(2, "pre");
    if (pre) { std::string t = anystr(1, "byte"); s.rbuffer().put_string(t); got.put(t[0]); }
    bool unread = kind == 1 && choose(2, "peer has unread data");
    if (unread) { char c = 'x'; ::write(fd[0], &c, 1); }
    for (int i = 0; i < steps; ++i) {
        int op = choose(5, "op");
        if (op == 0) { if (closed) continue; int n = range(1, maxlen, "n"); char b[8]; for (int k = 0; k < n; ++k) { b[k] = (char)u8("byte"); queued.put(b[k]); } ::write(peer, b, n); }
        else if (op == 1) { if (closed) continue; ::close(peer); closed = true; }
        else if (op == 4) { int n = choose(got.size() + 1, "consume"); s.rbuffer().consume(n); got.b += n; }
        else {
            int len = op == 2 ? choose(maxlen + 3, "len") : range(1, 2, "step"), r = 0, before = got.e;
            int avail = queued.size(), want = op == 2 ? std::min(len, avail) : avail;
            bool past = op == 2 ? len > avail : true;    // the operation looks beyond the available bytes
            arm(true);
            int t = throws_sys([&] { r = op == 2 ? s.read_chunk(len) : s.read_all(len); });
            arm(false);
            if (t) {
                VK_ASSERT(t == 1 && g_code == EIO, "a failing read is reported with its error number");
                int moved = avail - vkw_pipe_len(fd[0]); copyout(got, queued, moved); failed = true; vk_reach("read error");
            } else {
                VK_ASSERT(r == want, "a read moves as many bytes as requested and available");
                copyout(got, queued, want);
                if (past && closed) { if (unread && !eof && !reset) { reset = true; unread = false; } else eof = true; }
                (void)before;
            }
            VK_ASSERT(s.eof() == eof, "end of file is reported exactly when the peer closed and everything was read");
            VK_ASSERT(s.is_reset() == reset, "a connection reset is reported exactly when it happened");
            if (eof) vk_reach("eof"); if (reset) vk_reach("reset");
            if (r > 1) vk_reach("several bytes");
        }
        VK_ASSERT(s.rbuffer().size() == got.size(), "the read buffer holds exactly the bytes read and not consumed");
        VK_ASSERT(same(s.rbuffer().rawbuf(), got.d + got.b, got.size()), "bytes are delivered in order, unchanged");
        VK_ASSERT(!s.eop(), "reading never reports a broken pipe");
    }
    (void)failed;
}
// ---------------------------------------------------------------- writing
ENTRY nio_write() {
    int maxlen = param("maxlen", 2), steps = param("steps", 3), kind = choose(2, "kind");
    env(param("eintr", 1), param("shorts", 1), param("faults", 0), VKF_WRITE);
    vkw.pipe_cap = vkw.sock_cap = param("cap", 3);
    int fd[2];
    if (kind == 0) { int p[2]; ::pipe(p); fd[0] = p[1]; fd[1] = p[0]; } else raw_pair(fd);
    nstream s(fd[0]);
    int peer = fd[1];
    Bytes pending, queued, out; bool closed = false, eop = false;
    char bb[8];
    for (int i = 0; i < steps; ++i) {
        int op = i == 0 ? 0 : choose(5, "op");
        if (op == 0) { int n = range(0, maxlen + (i == 0 ? 2 : 0), "n"); std::string t = anystr(n, "byte"); for (char c : t) pending.put(c); s.wbuffer().put_string(t); }
        else if (op == 1) { if (closed) continue; int n = range(1, maxlen, "n"), k = (int)::read(peer, bb, std::min(n, queued.size())); for (int j = 0; j < k; ++j) VK_ASSERT(bb[j] == queued.d[queued.b + j], "bytes arrive in order, unchanged"); queued.b += k; }
        else if (op == 2) { if (closed) continue; if (kind == 1 && queued.size()) continue; ::close(peer); closed = true; }
        else {
            int len = op == 3 ? choose(maxlen + 4, "len") : range(1, 2, "step"), r = 0, size = pending.size(), room = vkw.pipe_cap - queued.size();
            int want = closed ? 0 : std::min(op == 3 ? std::min(len, size) : size, room);
            arm(true);
            int t = throws_sys([&] { r = op == 3 ? s.write_chunk(len) : s.write_all(len); });
            arm(false);
            if (t) {
                VK_ASSERT(t == 1 && g_code == EIO, "a failing write is reported with its error number");
                int moved = vkw_pipe_len(peer) - queued.size(); copyout(queued, pending, moved); vk_reach("write error");
            } else {
                VK_ASSERT(r == want, "a write moves as many bytes as requested, buffered and accepted by the peer");
                copyout(queued, pending, want);
                if (closed && size && (op == 4 || len)) { eop = true; vk_reach("broken pipe"); }
                if (!closed && room < size) vk_reach("peer full");
            }
        }
        VK_ASSERT(s.eop() == eop, "a broken pipe is reported exactly when the peer is gone");
        VK_ASSERT(!s.eof(), "writing never reports end of file");
        VK_ASSERT(s.wbuffer().size() == pending.size(), "the write buffer keeps exactly the bytes not yet written");
        VK_ASSERT(same(s.wbuffer().rawbuf(), pending.d + pending.b, pending.size()), "unwritten bytes stay in order, unchanged");
    }
    if (!closed) {
        int n = queued.size(), k = n ? (int)::read(peer, bb, n) : 0; (void)k;
        VK_ASSERT(same(bb, queued.d + queued.b, n), "bytes arrive in order, unchanged");
        VK_ASSERT(vkw_pipe_len(peer) == 0, "nothing is written that was not in the write buffer");
    }
}
// the connection breaks while bytes wait to be written
ENTRY nio_write_reset() {
    env(0, 0, 0, 0); vkw.sock_cap = 2; int fd[2]; raw_pair(fd); nstream s(fd[0]); int n = range(1, 4, "put"), done = 0; std::string t = anystr(n, "byte"); s.wbuffer().put_string(t);
    if (choose(2, "written before")) { done = s.write_chunk(1); VK_ASSERT(done == 1, "a write moves as many bytes as requested, buffered and accepted by the peer"); }
    static const int E[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETDOWN}; int e = E[choose(4, "cause")], how = choose(3, "how"), r = 0; if (e == ECONNRESET) vkw_reset_conn(fd[1]); else vkw_fail_conn(fd[1], e); if (choose(2, "peer gone")) ::close(fd[1]);
    int x = throws_sys([&] { r = how == 0 ? s.write_all() : how == 1 ? s.write_all(2) : s.write_chunk(3); }), left = n - done;
    if (left) { if (e == ECONNRESET) { VK_ASSERT(x == 0 && r == 0, "a connection reset is reported by the state of the stream, not as an error"); VK_ASSERT(s.is_reset() && !s.eop() && !s.eof(), "a connection reset is reported exactly when it happened"); int y = throws_sys([&] { r = s.write_all(); }); VK_ASSERT(y == 0 && r == 0 && s.eop(), "writing to a peer that is gone is a broken pipe"); vk_reach("reset"); }
    else { VK_ASSERT(x == 1 && g_code == e, "a failing write is reported with its error number"); VK_ASSERT(!s.is_reset() && !s.eop() && !s.eof(), "a connection reset is reported exactly when it happened"); vk_reach("failed"); } }
    VK_ASSERT(s.wbuffer().size() == left && same(s.wbuffer().rawbuf(), t.data() + done, left), "unwritten bytes stay in order, unchanged");
}
// ---------------------------------------------------------------- larger amounts, buffers with consumed parts, the default step
ENTRY nio_read_sizes() {
    env(0, 0, 0, 0); vkw.pipe_cap = 64; static const int N[] = {0, 1, 3, 7, 8, 9, 16, 17, 33}; int max = param("max", 17);
    int p[2]; ::pipe(p); nstream s(p[0]); sysconfig::buffer_io_step = range(1, 3, "default step") * 4;
    int pre = choose(param("pre", 6), "pre"), used = choose(pre + 1, "consumed"), n = N[choose(9, "arrived")]; if (n > max) return;
    std::string a = anystr(pre, "byte"), b = anystr(n, "byte"), e = a.substr(used) + b; s.rbuffer().put_string(a); if (used) s.rbuffer().consume(used); if (choose(2, "compact")) s.rbuffer().tiny();
    ::write(p[1], b.data(), n); bool end = choose(2, "end"); if (end) ::close(p[1]);
    int how = choose(4, "how"), r = how == 0 ? s.read_all() : how == 1 ? s.read_all(range(1, 9, "step")) : how == 2 ? s.read_chunk(n) : s.read_chunk(n + 3);
    VK_ASSERT(r == n, "a read moves as many bytes as requested and available"); VK_ASSERT(s.rbuffer().size() == (int)e.size() && same(s.rbuffer().rawbuf(), e.data(), (int)e.size()), "bytes are delivered in order, unchanged");
    VK_ASSERT(how == 2 || s.eof() == end, "end of file is reported exactly when the peer closed and everything was read"); std::string g = s.rbuffer().get_string(); VK_ASSERT(same(g, e), "bytes are delivered in order, unchanged"); vk_reach("read");
}
ENTRY nio_write_sizes() {
    env(0, 0, 0, 0); static const int C[] = {3, 8, 64}; vkw.pipe_cap = C[choose(3, "room")]; int max = param("max", 17);
    int p[2]; ::pipe(p); nstream s(p[1]); sysconfig::buffer_io_step = range(1, 3, "default step") * 4;
    int n = range(1, max, "put"), used = choose(n < 3 ? n : 3, "consumed"); std::string a = anystr(n, "byte"), all = a.substr(used), got; s.wbuffer().put_string(a); if (used) s.wbuffer().consume(used);
    auto take = [&] { char b[64]; ::fcntl(p[0], F_SETFL, O_NONBLOCK); int k = (int)::read(p[0], b, sizeof b); if (k > 0) got.append(b, k); };
    int k = range(1, n, "length"), r = s.write_chunk(k), want = std::min(std::min(k, n - used), vkw.pipe_cap);
    VK_ASSERT(r == want, "a write moves as many bytes as requested, buffered and accepted by the peer"); VK_ASSERT(s.wbuffer().size() == n - used - want && same(s.wbuffer().rawbuf(), all.data() + want, n - used - want), "unwritten bytes stay in order, unchanged");
    take(); std::string more = anystr(param("more", 2), "byte"); s.wbuffer().put_string(more); all += more;
    for (int i = 0; i < 12 && s.wbuffer().size(); ++i) { int left = s.wbuffer().size(); r = choose(2, "default") ? s.write_all() : s.write_all(5); VK_ASSERT(r == std::min(left, vkw.pipe_cap), "a write moves as many bytes as requested, buffered and accepted by the peer"); take(); if (i == 0) continue; vk_assume(true); }
    VK_ASSERT(same(got, all), "bytes arrive in order, unchanged"); vk_reach("written");
}
// ---------------------------------------------------------------- whole transfers through the library on both sides
ENTRY nio_roundtrip() {
    int total = param("total", 4), kind = choose(4, "kind");
    env(param("eintr", 1), param("shorts", 1), 0, 0);
    vkw.pipe_cap = vkw.sock_cap = param("cap", 2);
    std::shared_ptr<nstream> w, r; std::vector<std::shared_ptr<nstream>> v;
    std::shared_ptr<nsocktcp> l, c;
    if (kind == 0) { v = nio_factory::get_pipes(); r = v[0]; w = v[1]; }
    else if (kind == 1) { v = nio_factory::get_fifos("/fifo"); r = v[0]; w = v[1]; }
    else {
        l = nio_factory::get_nsocktcp(kind == 2 ? family::local : family::ipv4);
        if (kind == 2) l->bind_unix("/s"); else l->bind("127.0.0.1", 7000);
        l->listen();
        c = nio_factory::get_nsocktcp(kind == 2 ? family::local : family::ipv4);
        bool ok = kind == 2 ? c->connect_unix("/s") : c->connect("127.0.0.1", 7000);
        VK_ASSERT(ok, "connect to a listening address succeeds");
        auto a = l->accept(); VK_ASSERT(a.size() == 1, "a connection is accepted once");
        if (choose(2, "direction")) { w = c; r = a[0]; } else { w = a[0]; r = c; }
    }
    std::string data = anystr(total, "byte"), got; int sent = 0;
    for (int i = 0; i < 3 * total && (int)got.size() < total; ++i) {
        int n = range(sent < total ? 1 : 0, total - sent, "put"); 
        w->wbuffer().put_string(data.substr(sent, n)); sent += n;
        arm(true);
        if (choose(2, "chunk")) w->write_chunk(range(1, 2, "len")); else w->write_all(range(1, 2, "step"));
        r->read_all(i ? 2 : range(1, 2, "take"));
        arm(false);
        got += r->rbuffer().get_string();
    }
    VK_ASSERT((int)got.size() <= total && same(got.data(), data.data(), (int)got.size()), "the bytes received are a prefix of the bytes sent");
    VK_ASSERT((int)got.size() + w->wbuffer().size() + vkw_pipe_len(r->fd()) == sent, "no byte is lost or duplicated");
    if ((int)got.size() == total) { vk_reach("all received"); w->close(); r->read_all(); VK_ASSERT(r->eof() && r->rbuffer().size() == 0, "closing the sender ends the stream after the last byte"); }
}
ENTRY nio_fifo_shared() {   // all users of a path share one fifo
    env(0, 0, 0, 0); auto a = nio_factory::get_fifos("/fifo"); bool wrote = choose(2, "bytes under way"); std::string t = anystr(2, "byte"), u = anystr(2, "byte"), e;
    if (wrote) { a[1]->wbuffer().put_string(t); VK_ASSERT(a[1]->write_all() == 2, "a fifo takes bytes"); e += t; }
    auto b = nio_factory::get_fifos("/fifo"); bool dir = choose(2, "direction"); auto &w = dir ? a[1] : b[1]; auto &r = dir ? b[0] : a[0];
    w->wbuffer().put_string(u); VK_ASSERT(w->write_all() == 2, "a fifo takes bytes"); e += u; r->read_all(); VK_ASSERT(same(r->rbuffer().get_string(), e), "what one user of a fifo writes the other reads"); vk_reach("shared");
    auto c = nio_factory::get_fifos("/other"); w->wbuffer().put_string(t); w->write_all(); VK_ASSERT(c[0]->read_all() == 0 && !c[0]->eof(), "fifos of different paths are separate");
}
ENTRY nio_fifo_again() {    // writers come and go, the reader stays
    env(0, 0, 0, 0); auto a = nio_factory::get_fifos("/fifo"); std::string e; int rounds = param("rounds", 3); sysconfig::buffer_io_step = choose(2, "small steps") ? 2 : 1024; a[1]->close();
    for (int i = 0; i < rounds; ++i) {
        auto b = nio_factory::get_fifos("/fifo"); b[0]->close(); int n = choose(4, "bytes"); std::string t = anystr(n, "byte"); b[1]->wbuffer().put_string(t); VK_ASSERT(b[1]->write_all() == n, "a fifo takes bytes"); e += t; bool now = choose(2, "read now");
        if (now) a[0]->read_all(); b[1]->close(); a[0]->read_all(); VK_ASSERT(a[0]->eof(), "the reader sees the end after the last byte");
        VK_ASSERT((int)e.size() == a[0]->rbuffer().size() && same(std::string(a[0]->rbuffer().rawbuf(), a[0]->rbuffer().size()), e), "what one user of a fifo writes the other reads"); if (i) vk_reach("another writer");
    }
}
// ---------------------------------------------------------------- descriptor ownership
static long loops[2];   // stand-ins, only their addresses are used
template <typename T> static void own(T &&mk, bool stream) {
    if (choose(2, "descriptor 0")) ::close(0);   // an object may own any descriptor, 0 too
    int base = vkw_open_fds();
    {
        auto a = mk(), b = mk(); event_loop &ea = *(event_loop *)&loops[0], &eb = *(event_loop *)&loops[1]; bool attached = choose(2, "event loop"); if (attached) { a->set_evlp(ea); b->set_evlp(eb); }
        int fa = a->fd(), fb = b->fd(), ida = vkw_fd_id(fa), idb = vkw_fd_id(fb);
        std::string t = anystr(2, "rbyte"), u = anystr(3, "wbyte");
        a->rbuffer().put_string(t); a->wbuffer().put_string(u);
        switch (choose(6, "action")) {
        case 0: a->close(); VK_ASSERT(a->is_closed() && !vkw_fd_open(fa), "close releases the descriptor"); VK_ASSERT(vkw_fd_id(fb) == idb, "closing one object leaves others alone"); break;
        case 1: { a->close(); int p[2]; ::pipe(p); int ids = vkw_fd_id(p[0]); a->close(); a.reset(); VK_ASSERT(vkw_fd_id(p[0]) == ids, "a second close does not touch a descriptor that was reused"); ::close(p[0]); ::close(p[1]); vk_reach("reuse"); break; }
        case 2: { typename std::decay<decltype(*a)>::type c(std::move(*a)); VK_ASSERT(c.fd() == fa && !c.is_closed(), "a move transfers the descriptor"); VK_ASSERT(a->is_closed() && a->fd() != fa, "an object moved from owns nothing"); VK_ASSERT(!attached || &c.evlp() == &ea, "a move transfers the event loop");
                  a.reset(); VK_ASSERT(vkw_fd_id(fa) == ida, "destroying the moved-from object leaves the descriptor open");
                  VK_ASSERT(same(c.rbuffer().get_string(), t) && same(c.wbuffer().get_string(), u), "a move transfers the buffered data"); vk_reach("move construct"); break; }
        case 3: { *b = std::move(*a); VK_ASSERT(b->fd() == fa && !b->is_closed(), "a move transfers the descriptor"); VK_ASSERT(a->is_closed() && a->fd() != fa, "an object moved from owns nothing"); VK_ASSERT(!attached || &b->evlp() == &ea, "a move transfers the event loop"); if (choose(2, "receive again")) { auto c = mk(); int fc = c->fd(); *a = std::move(*c); VK_ASSERT(a->fd() == fc && !a->is_closed() && vkw_fd_open(fc) && vkw_fd_id(fa) == ida, "an object moved from can receive a descriptor"); } a.reset(); VK_ASSERT(vkw_fd_id(fa) == ida, "destroying the moved-from object leaves the descriptor open");
                  VK_ASSERT(!vkw_fd_open(fb), "a move assignment releases the descriptor it replaces");
                  VK_ASSERT(same(b->rbuffer().get_string(), t) && same(b->wbuffer().get_string(), u), "a move transfers the buffered data"); vk_reach("move assign"); break; }
        case 4: { auto &self = *a; *a = std::move(self); VK_ASSERT(a->fd() == fa && !a->is_closed() && vkw_fd_id(fa) == ida, "self assignment keeps the descriptor");
                  VK_ASSERT(same(a->rbuffer().get_string(), t) && same(a->wbuffer().get_string(), u), "self assignment keeps the buffered data"); break; }
        case 5: { b->close(); *b = std::move(*a); VK_ASSERT(b->fd() == fa && !b->is_closed() && vkw_fd_id(fa) == ida, "a closed object can receive a descriptor by move"); 
                  int p[2]; ::pipe(p); a->close(); a.reset(); VK_ASSERT(vkw_fd_id(fa) == ida, "closing the moved-from object leaves the descriptor open"); ::close(p[0]); ::close(p[1]); break; }
        }
    }
    VK_ASSERT(vkw_open_fds() == base, "every descriptor is released");
    VK_ASSERT(vkw.bad_close == 0, "no descriptor is closed twice");
    (void)stream;
}
ENTRY nio_own() {
    switch (choose(4, "type")) {
    case 0: own([] { int p[2]; ::pipe(p); ::close(p[1]); return std::make_unique<nio>(p[0]); }, false); break;
    case 1: own([] { int p[2]; ::pipe(p); ::close(p[1]); return std::make_unique<nstream>(p[0]); }, true); break;
    case 2: own([] { return std::make_unique<nsocktcp>(::socket(AF_INET, SOCK_STREAM, 0), family::ipv4); }, true); break;
    case 3: own([] { return std::make_unique<nsockudp>(::socket(AF_INET, SOCK_DGRAM, 0), family::ipv4); }, false); break;
    }
}
// stream state and peer travel with a move
ENTRY nio_move_state() {
    env(0, 0, 0, 0);
    int st = choose(6, "state"), fd[2] = {-1, -1}; std::shared_ptr<nsocktcp> keep; std::unique_ptr<nsocktcp> a;
    if (st >= 4) { auto l = nio_factory::get_nsocktcp(st == 4 ? family::ipv4 : family::local); if (st == 4) l->bind("127.0.0.1", 7000); else l->bind_unix("/s"); l->listen(); keep = l; auto c = nio_factory::get_nsocktcp(st == 4 ? family::ipv4 : family::local); VK_ASSERT(st == 4 ? c->connect("127.0.0.1", 7000) : c->connect_unix("/s"), "connect to a listening address succeeds"); a.reset(new nsocktcp(std::move(*c))); }
    else { raw_pair(fd); a.reset(new nsocktcp(fd[0], family::local)); }
    if (st == 1) { ::close(fd[1]); a->read_chunk(1); }
    if (st == 2) { ::close(fd[1]); a->wbuffer().put_string("x"); a->write_chunk(1); }
    if (st == 3) { char c = 'x'; ::write(fd[0], &c, 1); ::close(fd[1]); a->read_chunk(1); }
    bool eof = a->eof(), eop = a->eop(), reset = a->is_reset(); int rest = a->wbuffer().size(); auto peer = a->connpeer(); family f = st == 4 ? family::ipv4 : family::local;
    VK_ASSERT(eof == (st == 1) && eop == (st == 2) && reset == (st == 3), "end of file, broken pipe and reset are reported");
    if (st == 4) VK_ASSERT(std::get<0>(peer) == "127.0.0.1" && std::get<1>(peer) == 7000, "a move transfers the peer"); if (st == 5) VK_ASSERT(std::get<0>(peer) == "/s", "a move transfers the peer");
    auto check = [&](nsocktcp &b) { VK_ASSERT(b.eof() == eof && b.eop() == eop && b.is_reset() == reset && b.wbuffer().size() == rest && b.sockfamily() == f, "a move transfers the stream state"); VK_ASSERT(b.connpeer() == peer, "a move transfers the peer"); };
    int other = choose(2, "target was used");
    if (choose(2, "assign")) { nsocktcp b(::socket(AF_INET, SOCK_STREAM, 0), family::ipv4); int q[2]; if (other) { raw_pair(q); b = nsocktcp(q[0], family::local); ::close(q[1]); b.read_chunk(1); if (choose(2, "had a peer")) { auto l = nio_factory::get_nsocktcp(family::local); l->bind_unix("/x"); l->listen(); b = std::move(*nio_factory::get_nsocktcp(family::local)); b.connect_unix("/x"); } b.rbuffer().put_string("old"); b.wbuffer().put_string("older"); } int had = a->rbuffer().size(); b = std::move(*a); VK_ASSERT(b.rbuffer().size() == had, "a move transfers the buffers"); check(b); }
    else { nsocktcp b(std::move(*a)); check(b); }
    vk_reach("moved"); if (reset) vk_reach("reset moved"); if (st >= 4) vk_reach("peer moved");
}
// ---------------------------------------------------------------- blocking mode
ENTRY nio_nonblock() {
    int p[2]; ::pipe(p);
    int extra = (choose(2, "append") ? O_APPEND : 0) | (choose(2, "async") ? O_ASYNC : 0) | (choose(2, "nonblock") ? O_NONBLOCK : 0);
    ::fcntl(p[0], F_SETFL, extra);
    int before = vkw_fd_flags(p[0]);
    nio n(p[0]);
    VK_ASSERT(vkw_fd_flags(p[0]) == (before | O_NONBLOCK), "a wrapped descriptor is non-blocking and keeps its other flags");
    for (int i = 0; i < 2; ++i) {
        bool b = choose(2, "block");
        if (b) n.set_io_block(); else n.set_io_nonblock();
        VK_ASSERT(vkw_fd_flags(p[0]) == (b ? before & ~O_NONBLOCK : before | O_NONBLOCK), "switching the blocking mode changes only that flag");
    }
    vkw.fault_ops = VKF_FCNTL; vkw.faults = 1;
    int t = throws_sys([&] { n.set_io_block(); });
    if (vkw.faults == 0) { VK_ASSERT(t == 1 && g_code == EACCES, "a failing mode change is reported with its error number"); vk_reach("fault"); }
    else VK_ASSERT(t == 0, "a successful mode change reports nothing");
    ::close(p[1]);
}
// two objects with flags of their own, wrapped and switched in any order
ENTRY nio_nonblock_two() {
    int p[2], f[2]; ::pipe(p); static const int flags[] = {0, O_APPEND, O_ASYNC, O_APPEND | O_NONBLOCK}; std::unique_ptr<nio> n[2]; bool last[2];
    for (int i = 0; i < 2; ++i) { ::fcntl(p[i], F_SETFL, flags[choose(4, "flags")]); f[i] = vkw_fd_flags(p[i]) & ~O_NONBLOCK; n[i].reset(new nio(p[i])); last[i] = false; VK_ASSERT(vkw_fd_flags(p[i]) == (f[i] | O_NONBLOCK), "a wrapped descriptor is non-blocking and keeps its other flags"); }
    for (int k = 0; k < 3; ++k) {
        int i = choose(2, "object"); if (k == 1 && choose(2, "changed by others")) { f[i] ^= O_APPEND; ::fcntl(p[i], F_SETFL, f[i] | (last[i] ? 0 : O_NONBLOCK)); }
        last[i] = choose(2, "block"); if (last[i]) n[i]->set_io_block(); else n[i]->set_io_nonblock();
        for (int j = 0; j < 2; ++j) VK_ASSERT(vkw_fd_flags(p[j]) == (f[j] | (last[j] ? 0 : O_NONBLOCK)), "switching the blocking mode changes only that flag");
    }
    vk_reach("two");
}
// ---------------------------------------------------------------- factories
ENTRY nio_factories() {
    if (choose(2, "descriptor 0")) ::close(0);
    int base = vkw_open_fds();
    int f = choose(3, "fam"); family fam = f == 0 ? family::ipv4 : f == 1 ? family::ipv6 : family::local;
    env(0, 0, 1, VKF_SOCKET | VKF_PIPE | VKF_MKFIFO | VKF_OPEN);
    int which = choose(4, "which"), t; bool faulted;
    {
        std::vector<std::shared_ptr<nio>> got;
        arm(true); vkw.fault_any = choose(2, "any error");
        t = throws_sys([&] {
            if (which == 0) got.push_back(nio_factory::get_nsocktcp(fam));
            else if (which == 1) got.push_back(nio_factory::get_nsockudp(fam));
            else if (which == 2) { auto v = nio_factory::get_pipes(); got.assign(v.begin(), v.end()); }
            else { auto v = nio_factory::get_fifos("/f"); got.assign(v.begin(), v.end()); }
        });
        faulted = vkw.faults == 0; arm(false); bool any = vkw.fault_any; vkw.fault_any = 0; if (faulted && which == 3) vk_assume(vkw.last_errno != EEXIST);
        VK_ASSERT(t == (faulted ? 1 : 0), "a factory fails exactly when the system refuses");
        if (faulted) { VK_ASSERT(any ? g_code == vkw.last_errno : g_code == EMFILE || g_code == EACCES, "a failing factory reports the error number"); vk_reach("fault"); }
        else {
            VK_ASSERT(got.size() == (which < 2 ? 1u : 2u), "a factory returns the endpoints");
            for (auto &g : got) VK_ASSERT(vkw_fd_flags(g->fd()) & O_NONBLOCK, "endpoints are non-blocking");
            if (which >= 2) { char c = (char)u8("byte"), d = 0; VK_ASSERT(::write(got[1]->fd(), &c, 1) == 1 && ::read(got[0]->fd(), &d, 1) == 1 && c == d, "the second endpoint writes to the first"); }
            if (which == 3) { auto again = nio_factory::get_fifos("/f"); VK_ASSERT(again.size() == 2, "an existing fifo is reused"); }
        }
    }
    VK_ASSERT(vkw_open_fds() == base, "no descriptor is left open");
    VK_ASSERT(vkw.bad_close == 0, "no descriptor is closed twice");
}
// ---------------------------------------------------------------- socket options
ENTRY nio_options() {
    env(0, 0, 0, 0);
    nsocktcp t(::socket(AF_INET, SOCK_STREAM, 0), family::ipv4); nsockudp u(::socket(AF_INET, SOCK_DGRAM, 0), family::ipv4);
    auto snap = [&](int *o) { auto lg = t.get_so_linger(); o[0] = t.get_so_reuseaddr(); o[1] = t.get_so_reuseport(); o[2] = t.get_so_keepalive(); o[3] = t.get_tcp_nodelay(); o[4] = u.get_so_broadcast(); o[5] = lg.first; o[6] = lg.second; o[7] = t.get_so_rcvbuf(); o[8] = t.get_so_sndbuf(); o[9] = t.get_so_rcvlowat(); o[10] = u.get_so_reuseaddr(); o[11] = u.get_so_reuseport(); };
    int a[12], b[12];
    for (int round = 0; round < 2; ++round) {
        snap(a);
        int which = choose(9, "option"), idx = which, want = 0; bool on = choose(2, "enable"); int v = (int)u32("value"); int also = -1;
        switch (which) {
        case 0: t.set_so_reuseaddr(on); want = on; break;
        case 1: t.set_so_reuseport(on); want = on; break;
        case 2: t.set_so_keepalive(on); want = on; break;
        case 3: t.set_tcp_nodelay(on); want = on; break;
        case 4: u.set_so_broadcast(on); want = on; break;
        case 5: t.set_so_linger(on, v); want = on; also = 6; if (on) a[6] = v; break;
        case 6: idx = 7; vk_assume(v >= 2048 && v <= 200000); t.set_so_rcvbuf(v); want = 2 * v; break;
        case 7: idx = 8; vk_assume(v >= 2048 && v <= 200000); t.set_so_sndbuf(v); want = 2 * v; break;
        case 8: idx = 9; vk_assume(v >= 1); t.set_so_rcvlowat(v); want = v; break;
        }
        a[idx] = want; (void)also;
        snap(b);
        for (int i = 0; i < 12; ++i) VK_ASSERT(a[i] == b[i], "an option reads back as it was set and no other option changes");
    }
    vk_reach("set");
    vkw.fault_ops = VKF_SOCKOPT; vkw.faults = 1; int code = 0;
    code = throws_sys([&] { switch (choose(18, "call")) {
        case 0: t.set_so_reuseaddr(); break; case 1: t.set_so_reuseport(); break; case 2: t.set_so_keepalive(); break; case 3: t.set_tcp_nodelay(); break; case 4: u.set_so_broadcast(); break; case 5: t.set_so_linger(true, 1); break;
        case 6: t.set_so_rcvbuf(4096); break; case 7: t.set_so_sndbuf(4096); break; case 8: t.set_so_rcvlowat(3); break;
        case 9: t.get_so_reuseaddr(); break; case 10: t.get_so_reuseport(); break; case 11: t.get_so_keepalive(); break; case 12: t.get_tcp_nodelay(); break; case 13: u.get_so_broadcast(); break; case 14: t.get_so_linger(); break;
        case 15: t.get_so_rcvbuf(); break; case 16: t.get_so_sndbuf(); break; case 17: t.get_so_rcvlowat(); break; } });
    if (vkw.faults == 0) { VK_ASSERT(code == 1 && g_code == ENOBUFS, "a refused option is reported with its error number"); vk_reach("fault"); } else VK_ASSERT(code == 0, "an accepted option reports nothing");
    vkw.faults = 0;
    if (choose(2, "sndlowat")) { int x = throws_sys([&] { u.set_so_sndlowat(1); }); VK_ASSERT(x == 1 && g_code == ENOPROTOOPT, "an unsupported option is reported with its error number"); }
}
// options of two sockets are two things
ENTRY nio_options_two() {
    env(0, 0, 0, 0); auto a = nio_factory::get_nsocktcp(family::ipv4), b = nio_factory::get_nsocktcp(family::ipv6); auto u = nio_factory::get_nsockudp(family::ipv4), w = nio_factory::get_nsockudp(family::ipv4); nsocktcp *t[2] = {a.get(), b.get()}; nsockudp *d[2] = {u.get(), w.get()};
    int o = choose(9, "option"), v[2]; auto get = [&](int i) { switch (o) { case 0: return (int)t[i]->get_so_reuseaddr(); case 1: return (int)t[i]->get_so_reuseport(); case 2: return (int)t[i]->get_so_keepalive(); case 3: return (int)t[i]->get_tcp_nodelay(); case 4: return (int)d[i]->get_so_broadcast(); case 5: { auto l = t[i]->get_so_linger(); return l.first ? l.second : -1; } case 6: return t[i]->get_so_rcvbuf(); case 7: return t[i]->get_so_sndbuf(); default: return t[i]->get_so_rcvlowat(); } };
    for (int i = 0; i < 2; ++i) v[i] = get(i);
    for (int k = 0; k < 4; ++k) {
        int i = choose(2, "socket"), x = choose(2, "value");
        switch (o) { case 0: t[i]->set_so_reuseaddr(x); v[i] = x; break; case 1: t[i]->set_so_reuseport(x); v[i] = x; break; case 2: t[i]->set_so_keepalive(x); v[i] = x; break; case 3: t[i]->set_tcp_nodelay(x); v[i] = x; break; case 4: d[i]->set_so_broadcast(x); v[i] = x; break;
        case 5: t[i]->set_so_linger(x, 7 + k); v[i] = x ? 7 + k : -1; break; case 6: t[i]->set_so_rcvbuf(x ? 3000 : 5000); v[i] = x ? 6000 : 10000; break; case 7: t[i]->set_so_sndbuf(x ? 3000 : 5000); v[i] = x ? 6000 : 10000; break; default: t[i]->set_so_rcvlowat(x ? 3 : 5); v[i] = x ? 3 : 5; }
        for (int j = 0; j < 2; ++j) VK_ASSERT(get(j) == v[j], "an option reads back as it was set and no other option changes");
    }
    vk_reach("two");
}
// ---------------------------------------------------------------- addresses
static std::string dec(unsigned v) { char b[12]; int n = 0; do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v); std::string s; while (n) s += b[--n]; return s; }
ENTRY nio_addr4() {
    env(0, 0, 0, 0);
    unsigned o[4] = {127, 0, 0, 1}; int pos = choose(4, "pos"); o[pos] = (unsigned)vk_conc(u8("octet"));
    int port = (int)(uint16_t)vk_val(16, "port"); vk_assume(port != 0);
    std::string ip = dec(o[0]) + "." + dec(o[1]) + "." + dec(o[2]) + "." + dec(o[3]);
    auto l = nio_factory::get_nsocktcp(family::ipv4);
    bool any = choose(2, "any") && pos == 0 && o[0] == 127;
    if (any) l->bind(port); else l->bind(ip, port);
    sockaddr_in sa; socklen_t len = sizeof sa; ::getsockname(l->fd(), (sockaddr *)&sa, &len);
    unsigned char w[4]; memcpy(w, &sa.sin_addr, 4);
    if (any) { o[0] = o[3] = 0; ip = "0.0.0.0"; vk_reach("any address"); }
    VK_ASSERT(sa.sin_family == AF_INET && w[0] == o[0] && w[1] == o[1] && w[2] == o[2] && w[3] == o[3], "the bound address is the one given");
    VK_ASSERT(sa.sin_port == (in_port_t)(((port & 255) << 8) | (port >> 8)), "the bound port is the one given");
    auto n = l->sockname();
    VK_ASSERT(std::get<0>(n) == ip && std::get<1>(n) == port && std::get<2>(n) == family::ipv4, "the socket name reads back as it was bound");
    vk_reach("ipv4");
}
ENTRY nio_addr6() {
    env(0, 0, 0, 0);
    static const char *txt[] = {"::", "::1", "fe80::1", "1:2:3:4:5:6:7:8", "2001:db8::ff00:42:8329", "abcd:ef01:2345:6789:abcd:ef01:2345:6789", "::ffff:1.2.3.4", "::5", "1::", "::1:0:0:2", "1:0:0:2::3"};
    static const unsigned short g[][8] = {{0}, {0,0,0,0,0,0,0,1}, {0xfe80,0,0,0,0,0,0,1}, {1,2,3,4,5,6,7,8}, {0x2001,0xdb8,0,0,0,0xff00,0x42,0x8329}, {0xabcd,0xef01,0x2345,0x6789,0xabcd,0xef01,0x2345,0x6789}, {0,0,0,0,0,0xffff,0x102,0x304}, {0,0,0,0,0,0,0,5}, {1}, {0,0,0,0,1,0,0,2}, {1,0,0,2,0,0,0,3}};
    int k = choose(11, "address"), port = (int)(uint16_t)vk_val(16, "port"); vk_assume(port != 0);
    auto l = nio_factory::get_nsocktcp(family::ipv6);
    bool any = k == 0 && choose(2, "any");
    if (any) l->bind(port); else l->bind(txt[k], port);
    sockaddr_in6 sa; socklen_t len = sizeof sa; ::getsockname(l->fd(), (sockaddr *)&sa, &len);
    unsigned char w[16]; memcpy(w, &sa.sin6_addr, 16); bool ok = true; for (int i = 0; i < 8; ++i) ok = ok && ((w[2 * i] << 8) | w[2 * i + 1]) == g[k][i];
    VK_ASSERT(sa.sin6_family == AF_INET6 && ok, "the bound address is the one given");
    VK_ASSERT(sa.sin6_port == (in_port_t)(((port & 255) << 8) | (port >> 8)), "the bound port is the one given");
    auto n = l->sockname();
    VK_ASSERT(std::get<0>(n) == txt[k] && std::get<1>(n) == port && std::get<2>(n) == family::ipv6, "the socket name reads back as it was bound");
    if (!any && k) {   // a connection through the address reads back the same at both ends
        l = nio_factory::get_nsocktcp(family::ipv6); l->bind(txt[k], 7000); l->listen(); auto c = nio_factory::get_nsocktcp(family::ipv6); VK_ASSERT(c->connect(txt[k], 7000) && c->check_connect(), "connect to a listening address succeeds"); auto a = l->accept(); VK_ASSERT(a.size() == 1, "a connection is accepted once");
        auto want = std::make_tuple(std::string(txt[k]), 7000, family::ipv6); VK_ASSERT(c->peername() == want && a[0]->sockname() == want, "the socket name reads back as it was bound"); VK_ASSERT(std::get<0>(c->connpeer()) == txt[k], "the requested peer is remembered"); }
    vk_reach("ipv6");
}
ENTRY nio_addr_same() {   // sockets that differ in one part of their address only
    env(0, 0, 0, 0); sysconfig::udp_buffer_size = 8; static const struct { family f; const char *ip; int port; } A[] = {{family::ipv4, "127.0.0.1", 7000}, {family::ipv4, "127.0.0.2", 7000}, {family::ipv4, "127.0.0.1", 7001}, {family::ipv6, "::1", 7000}, {family::ipv6, "::1", 7001}, {family::ipv4, "127.1.0.1", 7000}};
    int i = choose(6, "first"), k = choose(6, "second"); vk_assume(i != k); int w[2] = {i, k}; bool udp = choose(2, "datagrams"); auto is = [](const std::tuple<std::string, int, family> &t, int n) { return std::get<0>(t) == A[n].ip && std::get<1>(t) == A[n].port && std::get<2>(t) == A[n].f; };
    if (!udp) {
        std::shared_ptr<nsocktcp> l[2], c[2]; for (int n = 0; n < 2; ++n) { l[n] = nio_factory::get_nsocktcp(A[w[n]].f); l[n]->bind(A[w[n]].ip, A[w[n]].port); l[n]->listen(); } for (int n = 0; n < 2; ++n) { c[n] = nio_factory::get_nsocktcp(A[w[n]].f); c[n]->connect(A[w[n]].ip, A[w[n]].port); }
        for (int n = 0; n < 2; ++n) { VK_ASSERT(is(l[n]->sockname(), w[n]), "the address reported is the one bound"); auto v = l[n]->accept(); VK_ASSERT(v.size() == 1, "a connection reaches the address it was made to"); VK_ASSERT(is(v[0]->sockname(), w[n]) && v[0]->peername() == c[n]->sockname(), "the addresses of an accepted connection are reported"); }
        for (int n = 0; n < 2; ++n) VK_ASSERT(is(c[n]->peername(), w[n]) && is(c[n]->connpeer(), w[n]), "the peer reported is the one connected to"); vk_reach("connections");
    } else {
        std::shared_ptr<nsockudp> b[2], s; for (int n = 0; n < 2; ++n) { b[n] = nio_factory::get_nsockudp(A[w[n]].f); b[n]->bind(A[w[n]].ip, A[w[n]].port); } std::shared_ptr<nsockudp> from[2]; for (int n = 0; n < 2; ++n) from[n] = A[w[n]].f == A[w[0]].f && n ? from[0] : nio_factory::get_nsockudp(A[w[n]].f);
        for (int n = 0; n < 4; ++n) { int x = n % 2; std::string d = anystr(2, "byte"); from[x]->wbuffer().put_string(d); from[x]->send(A[w[x]].ip, A[w[x]].port); VK_ASSERT(throws_sys([&] { b[1 - x]->recv(); }) == 1, "a datagram reaches the address it was sent to and no other"); b[x]->recv(); VK_ASSERT(same(b[x]->rbuffer().get_string(), d), "a datagram arrives whole, in order and unchanged"); }
        VK_ASSERT(throws<std::exception>([&] { from[0]->wbuffer().put_string("z"); from[0]->send(A[w[0]].ip, 70000); }) == 1, "a port that does not exist is refused"); from[0]->wbuffer().clear();
        if (A[i].f == A[k].f) { auto r = nio_factory::get_nsockudp(A[i].f); r->bind(A[i].ip, 7009); for (int n = 0; n < 4; ++n) { b[n % 2]->wbuffer().put_string("q"); b[n % 2]->send(A[i].ip, 7009); VK_ASSERT(is(r->recv(), w[n % 2]), "the sender is reported"); r->rbuffer().clear(); } vk_reach("senders"); }
    }
}
ENTRY nio_addr_bad() {   // malformed addresses are refused by every operation that takes one
    env(0, 0, 0, 0);
    static const char *bad4[] = {"", "1.2.3", "256.1.1.1", "1.2.3.4.5", "a.b.c.d", "1.2.3.4 ", "::1", "127.1", "1", "010.0.0.1", "0x7f.0.0.1", " 1.2.3.4"};
    static const char *bad6[] = {"", "1.2.3.4", ":::", "12345::", "1:2:3:4:5:6:7:8:9", "g::1", "1:2:3", "1::2::3", "::1 ", "[::1]", "::1:", "::256.1.1.1"};
    bool six = choose(2, "six"); const char *ip = (six ? bad6 : bad4)[choose(12, "text")]; family f = six ? family::ipv6 : family::ipv4;
    int op = choose(3, "op"), t = 0;
    if (op == 2) { auto u = nio_factory::get_nsockudp(f); u->wbuffer().put_string("ab"); t = throws<std::logic_error>([&] { u->send(ip, 9); }); VK_ASSERT(u->wbuffer().size() == 2, "data is kept when sending fails"); }
    else { auto s = nio_factory::get_nsocktcp(f); t = throws<std::logic_error>([&] { if (op == 0) s->bind(ip, 9); else s->connect(ip, 9); }); }
    VK_ASSERT(t == 1, "a malformed address is refused with a logic error");
    vk_reach("refused");
}
ENTRY nio_addr_port() {  // ports that do not exist are refused by every operation that takes one
    env(0, 0, 0, 0); int port = (int)u32("port"); vk_assume(port < 0 || port > 65535); bool six = choose(2, "six"); const char *ip = six ? "::1" : "127.0.0.1"; family f = six ? family::ipv6 : family::ipv4;
    int op = choose(4, "op"), t = 0;
    if (op == 2) { auto u = nio_factory::get_nsockudp(f); u->wbuffer().put_string("ab"); t = throws<std::exception>([&] { u->send(ip, port); }); VK_ASSERT(u->wbuffer().size() == 2, "data is kept when sending fails"); }
    else { auto s = nio_factory::get_nsocktcp(f); t = throws<std::exception>([&] { if (op == 0) s->bind(ip, port); else if (op == 3) s->bind(port); else s->connect(ip, port); }); if (op != 1) { sockaddr_storage a; memset(&a, 0, sizeof a); socklen_t l = sizeof a; ::getsockname(s->fd(), (sockaddr *)&a, &l); VK_ASSERT(((sockaddr_in *)&a)->sin_port == 0, "a port that does not exist is not replaced by another one"); } }
    VK_ASSERT(t == 1, "a port that does not exist is refused"); vk_reach("refused");
}
ENTRY nio_addr_unix() {   // path lengths up to and beyond what the system accepts
    env(0, 0, 0, 0);
    int n = choose(4, "len"); n = n == 0 ? 1 : n == 1 ? 20 : n == 2 ? 107 : 108;
    std::string path((size_t)n, 'p');
    auto l = nio_factory::get_nsocktcp(family::local);
    int t = throws<std::exception>([&] { l->bind_unix(path); l->listen(); });
    if (n > 107) {
        VK_ASSERT(t == 1, "a path that does not fit is refused");
        auto c = nio_factory::get_nsocktcp(family::local); bool ok = false; 
        auto l2 = nio_factory::get_nsocktcp(family::local); l2->bind_unix(std::string(107, 'p')); l2->listen();
        t = throws<std::exception>([&] { ok = c->connect_unix(path); });
        VK_ASSERT(t == 1 || !ok, "a path that does not fit is refused");
        vk_reach("too long");
        return;
    }
    VK_ASSERT(t == 0, "a path that fits is accepted");
    auto c = nio_factory::get_nsocktcp(family::local), c2 = nio_factory::get_nsocktcp(family::local);
    VK_ASSERT(c->connect_unix(path) && c2->connect_unix(path), "connect to a listening path succeeds");
    auto a = l->accept(); VK_ASSERT(a.size() == 2, "a connection is accepted once"); VK_ASSERT(std::get<0>(a[1]->sockname()) == path && std::get<2>(a[1]->sockname()) == family::local && std::get<0>(a[1]->connpeer()) == path, "the socket name reads back as it was bound");
    VK_ASSERT(std::get<0>(l->sockname()) == path && std::get<0>(c->peername()) == path && std::get<0>(a[0]->sockname()) == path && std::get<0>(c->connpeer()) == path, "the socket name reads back as it was bound");
    // rebinding needs removal of the old name
    auto l3 = nio_factory::get_nsocktcp(family::local); bool rm = choose(2, "remove");
    t = throws_sys([&] { l3->bind_unix(path, rm); });
    VK_ASSERT(rm ? t == 0 : t == 1 && g_code == EADDRINUSE, "binding an existing path fails unless removal is requested");
    vk_reach("unix");
}
// ---------------------------------------------------------------- connecting and accepting
ENTRY nio_connect() {
    int f = choose(3, "fam"); family fam = f == 0 ? family::ipv4 : f == 1 ? family::ipv6 : family::local; int nc = param("clients", 2);
    env(0, 0, 0, 0); vkw.connect_imm = 1; vkw.connect_fail = f == 2 ? 0 : 1;
    const char *ip = f == 0 ? "127.0.0.1" : "::1"; int base = vkw_open_fds();
    {
        auto l = nio_factory::get_nsocktcp(fam);
        bool listening = choose(2, "listening");
        if (f == 2) l->bind_unix("/s"); else l->bind(ip, 7000);
        if (listening) l->listen();
        std::vector<std::shared_ptr<nsocktcp>> c; int good = 0; std::vector<int> who;
        for (int i = 0; i < nc; ++i) {
            auto s = nio_factory::get_nsocktcp(fam); int fails = vkw.connect_fail;
            bool r = f == 2 ? s->connect_unix("/s") : s->connect(ip, 7000); bool ok = r && s->check_connect();
            VK_ASSERT(ok == (listening && vkw.connect_fail == fails), "a connection attempt succeeds exactly when a listener accepts it");
            if (!r && f == 2 && choose(2, "another target")) { auto l2 = nio_factory::get_nsocktcp(fam); l2->bind_unix("/t"); l2->listen(); VK_ASSERT(s->connect_unix("/t"), "a connection attempt succeeds exactly when a listener accepts it"); VK_ASSERT(std::get<0>(s->connpeer()) == "/t" && std::get<0>(s->peername()) == "/t", "the requested peer is remembered"); ::unlink("/t"); vk_reach("second attempt"); }
            if (ok) { ++good; who.push_back(i); if (f != 2) { auto p = s->peername(); VK_ASSERT(std::get<0>(p) == ip && std::get<1>(p) == 7000 && std::get<2>(p) == fam, "the peer is the address connected to"); } auto q = s->connpeer(); VK_ASSERT(std::get<0>(q) == (f == 2 ? "/s" : ip) && std::get<1>(q) == (f == 2 ? -1 : 7000), "the requested peer is remembered"); }
            else vk_reach("refused");
            c.push_back(s);
        }
        if (listening) {
            std::vector<std::shared_ptr<nsocktcp>> got; int batch = range(1, 3, "batch"), n = 0;
            for (int i = 0; i < nc + 1; ++i) { auto v = l->accept(batch); VK_ASSERT((int)v.size() == std::min(batch, good - n), "accept returns the waiting connections, at most as many as asked for"); n += (int)v.size(); for (auto &x : v) got.push_back(x); }
            VK_ASSERT((int)got.size() == good, "every connection is accepted exactly once");
            for (int i = 0; i < good; ++i) {
                VK_ASSERT(vkw_fd_flags(got[i]->fd()) & O_NONBLOCK, "accepted sockets are non-blocking"); VK_ASSERT(got[i]->sockfamily() == fam, "accepted sockets have the family of the listener"); if (f == 2) { auto q = got[i]->sockname(); VK_ASSERT(std::get<0>(q) == "/s" && std::get<2>(q) == family::local, "accepted sockets have the name of the listener"); VK_ASSERT(std::get<0>(got[i]->connpeer()) == "/s" && std::get<1>(got[i]->connpeer()) == -1, "accepted sockets have the name of the listener"); }
                char x = (char)u8("byte"), y = 0; VK_ASSERT(::write(c[who[i]]->fd(), &x, 1) == 1 && ::read(got[i]->fd(), &y, 1) == 1 && x == y, "connections are accepted in order");
                if (f != 2) VK_ASSERT(got[i]->peername() == c[who[i]]->sockname() && std::get<1>(got[i]->sockname()) == 7000, "both ends agree on their addresses");
            }
            vk_reach("accepted");
        }
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "every descriptor is released once");
}
// more attempts than the listener takes, and attempts over local sockets that fail for any reason
ENTRY nio_connect_many() {   // many connections waiting, in batches of every kind
    int f = choose(2, "fam"), nc = param("many", 40); family fam = f ? family::local : family::ipv4; env(0, 0, 0, 0); vkw.backlog_cap = 60; vkw.max_fds = 150;
    static const int bs[] = {1, 7, 39, 40, 1000, -1}; int bi = choose(6, "batch"), batch = bs[bi];
    auto l = nio_factory::get_nsocktcp(fam); if (f) l->bind_unix("/s"); else l->bind("127.0.0.1", 7000); l->listen();
    std::vector<std::shared_ptr<nsocktcp>> c, got;
    for (int i = 0; i < nc; ++i) { c.push_back(nio_factory::get_nsocktcp(fam)); bool ok = f ? c.back()->connect_unix("/s") : c.back()->connect("127.0.0.1", 7000); VK_ASSERT(ok && c.back()->check_connect(), "a connection attempt succeeds exactly when a listener accepts it"); }
    for (int n = 0, k = 0; n < nc && k < nc + 2; ++k) { auto v = batch < 0 ? l->accept() : l->accept(batch); VK_ASSERT((int)v.size() == (batch < 0 ? nc : std::min(batch, nc - n)), "accept returns the waiting connections, at most as many as asked for"); n += (int)v.size(); got.insert(got.end(), v.begin(), v.end()); }
    VK_ASSERT((int)got.size() == nc && l->accept().empty(), "every connection is accepted exactly once");
    for (int i = 0; i < nc; ++i) { char x = (char)('a' + i % 26), y = 0; VK_ASSERT(::write(c[i]->fd(), &x, 1) == 1 && ::read(got[i]->fd(), &y, 1) == 1 && x == y, "connections are accepted in order"); if (!f) VK_ASSERT(got[i]->peername() == c[i]->sockname(), "both ends agree on their addresses"); }
    vk_reach("many");
}
ENTRY nio_connect_local() {
    env(0, 0, 0, 0); auto l = nio_factory::get_nsocktcp(family::local); l->bind_unix("/s"); l->listen();
    if (choose(2, "many")) {
        std::vector<std::shared_ptr<nsocktcp>> c; int good = 0, n = 0; for (int i = 0; i < 12; ++i) { c.push_back(nio_factory::get_nsocktcp(family::local)); bool ok = c.back()->connect_unix("/s"); good += ok; VK_ASSERT(ok == (i < 8), "a connection attempt succeeds exactly when a listener accepts it"); }
        for (int i = 0; i < 4; ++i) n += (int)l->accept(5).size(); VK_ASSERT(n == good, "every connection is accepted exactly once"); vk_reach("more than the listener takes");
    } else {
        vkw.faults = 1; vkw.fault_ops = VKF_CONNECT; vkw.fault_any = 1; auto c = nio_factory::get_nsocktcp(family::local); bool r = c->connect_unix("/s"); vkw.fault_any = 0; int le = vkw.last_errno; if (vkw.faults == 0) vk_assume(le != EINPROGRESS && le != EINTR && le != EALREADY && le != EISCONN);
        VK_ASSERT(r == (vkw.faults == 1), "an immediately failing connect is reported"); VK_ASSERT(l->accept().size() == (r ? 1u : 0u), "every connection is accepted exactly once"); if (!r) vk_reach("fault");
    }
}
ENTRY nio_connect_faults() {
    env(0, 0, 0, 0); int t;
    auto l = nio_factory::get_nsocktcp(family::ipv4); auto c = nio_factory::get_nsocktcp(family::ipv4);
    vkw.faults = 1; vkw.fault_ops = VKF_BIND | VKF_LISTEN | VKF_SOCKOPT;
    t = throws_sys([&] { l->bind("127.0.0.1", 7000); l->listen(); });
    VK_ASSERT(t == (vkw.faults == 0 ? 1 : 0), "a refused bind or listen is reported");
    if (t) { VK_ASSERT(g_code == EACCES || g_code == EADDRINUSE || g_code == ENOBUFS, "the error number is reported"); vk_reach("bind fault"); return; }
    vkw.fault_ops = VKF_CONNECT; vkw.fault_any = 1; bool r = c->connect("127.0.0.1", 7000); vkw.fault_any = 0; int le = vkw.last_errno; if (vkw.faults == 0) vk_assume(le != EINPROGRESS && le != EINTR && le != EALREADY && le != EISCONN);
    VK_ASSERT(r == (vkw.faults == 1), "an immediately failing connect is reported"); if (!r) { vk_reach("connect fault"); auto l2 = nio_factory::get_nsocktcp(family::ipv4); l2->bind("127.0.0.2", 7001); l2->listen(); VK_ASSERT(c->connect("127.0.0.2", 7001), "connect to a listening address succeeds"); VK_ASSERT(c->connpeer() == std::make_tuple(std::string("127.0.0.2"), 7001, family::ipv4), "the requested peer is remembered"); return; }
    vkw.fault_ops = VKF_ACCEPT; auto c2 = nio_factory::get_nsocktcp(family::ipv4); c2->connect("127.0.0.1", 7000);
    vkw.eintr = param("eintr", 1); size_t n = 0; std::vector<std::shared_ptr<nsocktcp>> got; int reported = 0;
    for (int i = 0; i < 4; ++i) { t = throws_sys([&] { auto v = l->accept(); got.insert(got.end(), v.begin(), v.end()); }); if (t) { VK_ASSERT(t == 1 && g_code == EMFILE, "a failing accept is reported with its error number"); ++reported; } }
    if (vkw.faults == 0) vk_reach("accept fault"); else VK_ASSERT(!reported, "a working accept reports nothing"); if (reported) vk_reach("accept failure reported");
    VK_ASSERT(got.size() == 2, "a failing accept loses no connection and stops none from being accepted");
}
// ---------------------------------------------------------------- datagrams
ENTRY nio_udp() {
    int f = choose(3, "fam"); family fam = f == 0 ? family::ipv4 : f == 1 ? family::ipv6 : family::local; int maxlen = param("maxlen", 2), nd = param("grams", 2);
    env(0, 0, param("faults", 1), VKF_SENDTO | VKF_RECVFROM);
    sysconfig::udp_buffer_size = param("buf", 4);
    const char *ip = f == 0 ? "127.0.0.1" : "::1";
    auto a = nio_factory::get_nsockudp(fam), b = nio_factory::get_nsockudp(fam);
    if (f == 2) { a->bind_unix("/a"); b->bind_unix("/b"); } else { a->bind(ip, 5001); b->bind(ip, 5002); }
    std::string sent[4], held; int n = 0, rd = 0, skip = choose(2, "consumed before");   // bytes of the write buffer that were consumed before
    for (int i = 0; i < nd; ++i) {
        std::string d = anystr(choose(maxlen + 1, "len"), "byte");
        if (skip) { a->wbuffer().put_string("#"); a->wbuffer().put_string(d); a->wbuffer().consume(1); } else a->wbuffer().put_string(d);
        arm(true); int before = vkw.faults; int t = throws_sys([&] { if (f == 2) a->send_unix("/b"); else a->send(ip, 5002); }); bool hit = vkw.faults < before; arm(false);
        if (hit) { VK_ASSERT(t == 1 && (g_code == EAGAIN || g_code == ENETUNREACH), "a refused send is reported with its error number"); VK_ASSERT(a->wbuffer().size() == (int)d.size() && same(a->wbuffer().get_string(), d), "data is kept when sending fails"); vk_reach("send fault"); }
        else { VK_ASSERT(t == 0, "an accepted send reports nothing"); VK_ASSERT(a->wbuffer().size() == 0, "sent data leaves the write buffer"); sent[n++] = d; }
    }
    for (int i = 0; i <= n; ++i) {
        std::tuple<std::string, int, family> from;
        arm(true); int before = vkw.faults; int t = throws_sys([&] { from = b->recv(); }); bool hit = vkw.faults < before; arm(false);
        if (hit || rd == n) { VK_ASSERT(t == 1 && g_code == (hit ? ECONNREFUSED : EAGAIN), "a failing receive is reported with its error number"); VK_ASSERT(b->rbuffer().size() == (int)held.size() && same(b->rbuffer().rawbuf(), held.data(), (int)held.size()), "a failing receive leaves the read buffer alone"); vk_reach(hit ? "recv fault" : "nothing to receive"); continue; }
        VK_ASSERT(t == 0, "a waiting datagram is received"); held += sent[rd++];
        VK_ASSERT(b->rbuffer().size() == (int)held.size() && same(b->rbuffer().rawbuf(), held.data(), (int)held.size()), "a datagram arrives whole, in order and unchanged");
        if (f == 2) VK_ASSERT(std::get<0>(from) == "/b" && std::get<2>(from) == family::local, "the local path is reported");
        else VK_ASSERT(std::get<0>(from) == ip && std::get<1>(from) == 5001 && std::get<2>(from) == fam, "the sender is reported");
        int k = choose(3, "consume"); if (k == 1) k = (int)held.size(); else if (k == 2) { k = 1; if (held.size() < 2) return; } if (k) { VK_ASSERT(same(b->rbuffer().get_string(k), held.substr(0, k)), "bytes are delivered in order, unchanged"); held = held.substr(k); } else if (held.size()) vk_reach("not consumed");
        vk_reach("received");
    }
}
// sockets of all families used in turns
static family fams_[3] = {family::ipv4, family::ipv6, family::local}; static const char *ips_[3] = {"127.0.0.1", "::1", nullptr};
ENTRY nio_udp_mixed() {
    env(0, 0, 0, 0); sysconfig::udp_buffer_size = 8; std::shared_ptr<nsockudp> a[3], b[3]; static const char *pa[3] = {"", "", "/a"}, *pb[3] = {"", "", "/b"};
    for (int f = 0; f < 3; ++f) { a[f] = nio_factory::get_nsockudp(fams_[f]); b[f] = nio_factory::get_nsockudp(fams_[f]); if (f == 2) { a[f]->bind_unix(pa[f]); b[f]->bind_unix(pb[f]); } else { a[f]->bind(ips_[f], 5001 + f); b[f]->bind(ips_[f], 6001 + f); } }
    for (int k = 0; k < 4; ++k) {
        int f = choose(3, "family"); std::string d = anystr(k, "byte"); a[f]->wbuffer().put_string(d); if (f == 2) a[f]->send_unix("/b"); else a[f]->send(ips_[f], 6001 + f);
        b[f]->rbuffer().clear(); auto from = b[f]->recv(); VK_ASSERT(b[f]->rbuffer().size() == k && same(b[f]->rbuffer().rawbuf(), d.data(), k), "a datagram arrives whole, in order and unchanged");
        if (f == 2) VK_ASSERT(std::get<0>(from) == "/b" && std::get<2>(from) == family::local, "the local path is reported"); else VK_ASSERT(std::get<0>(from) == ips_[f] && std::get<1>(from) == 5001 + f && std::get<2>(from) == fams_[f], "the sender is reported");
        vk_reach(f == 0 ? "ipv4" : f == 1 ? "ipv6" : "local");
    }
}
ENTRY nio_connect_mixed() {
    env(0, 0, 0, 0); std::shared_ptr<nsocktcp> l[3]; for (int f = 0; f < 3; ++f) { l[f] = nio_factory::get_nsocktcp(fams_[f]); if (f == 2) l[f]->bind_unix("/s"); else l[f]->bind(ips_[f], 7000 + f); l[f]->listen(); }
    for (int k = 0; k < 4; ++k) {
        int f = choose(3, "family"); auto c = nio_factory::get_nsocktcp(fams_[f]); bool ok = f == 2 ? c->connect_unix("/s") : c->connect(ips_[f], 7000 + f); VK_ASSERT(ok && c->check_connect(), "a connection attempt succeeds exactly when a listener accepts it");
        for (int g = 0; g < 3; ++g) { auto v = l[g]->accept(); VK_ASSERT((int)v.size() == (g == f), "every connection is accepted exactly once"); if (g != f) continue; auto &x = v[0]; VK_ASSERT(x->sockfamily() == fams_[f], "accepted sockets have the family of the listener"); if (f == 2) { VK_ASSERT(std::get<0>(x->sockname()) == "/s" && std::get<0>(c->peername()) == "/s" && std::get<2>(x->sockname()) == family::local, "both ends agree on their addresses"); continue; }
            auto q = x->sockname(); VK_ASSERT(std::get<0>(q) == ips_[f] && std::get<1>(q) == 7000 + f && std::get<2>(q) == fams_[f] && c->peername() == q && x->peername() == c->sockname() && std::get<0>(x->peername()) == ips_[f] && std::get<2>(x->peername()) == fams_[f], "both ends agree on their addresses"); }
        vk_reach(f == 0 ? "ipv4" : f == 1 ? "ipv6" : "local");
    }
}
ENTRY nio_udp_full() {   // datagrams of the configured size while earlier ones are still in the buffer
    env(0, 0, 0, 0); int size = range(1, param("size", 5), "buffer size"), n = 3; sysconfig::udp_buffer_size = size; bool local = choose(2, "local"); family fam = local ? family::local : family::ipv4;
    auto a = nio_factory::get_nsockudp(fam), b = nio_factory::get_nsockudp(fam); if (local) b->bind_unix("/b"); else { a->bind("127.0.0.1", 5001); b->bind("127.0.0.1", 5002); } std::string all; int used = choose(size, "consumed");
    for (int i = 0; i < n; ++i) { std::string d = anystr(size, "byte"); a->wbuffer().put_string(d); if (local) a->send_unix("/b"); else a->send("127.0.0.1", 5002); int t = throws_sys([&] { b->recv(); }); all += d; VK_ASSERT(t == 0 && b->rbuffer().size() == (int)all.size() && same(b->rbuffer().rawbuf(), all.data(), (int)all.size()), "a datagram arrives whole, in order and unchanged"); if (used) { b->rbuffer().consume(used); all = all.substr(used); } }
    vk_reach("several datagrams");
}
static const int MORE[] = {1, 2, 40};
ENTRY nio_udp_oversize() {   // datagrams larger than configured may be cut, but nothing else suffers
    env(0, 0, 0, 0); int size = range(1, 4, "buffer size"), n = 3; sysconfig::udp_buffer_size = size; bool local = choose(2, "local"); family fam = local ? family::local : family::ipv6; auto a = nio_factory::get_nsockudp(fam), b = nio_factory::get_nsockudp(fam); if (local) b->bind_unix("/b"); else { a->bind("::1", 5001); b->bind("::1", 5002); } std::string all; bool first = choose(2, "sent first"); std::string d[3];
    for (int i = 0; i < n; ++i) d[i] = anystr(i == 1 ? size : choose(2, "oversize") ? size + MORE[choose(3, "more")] : size, "byte");
    auto send = [&](int i) { a->wbuffer().put_string(d[i]); if (local) a->send_unix("/b"); else a->send("::1", 5002); }; if (first) for (int i = 0; i < n; ++i) send(i);
    for (int i = 0; i < n; ++i) {
        if (!first) send(i); int t = throws_sys([&] { b->recv(); }), got = b->rbuffer().size() - (int)all.size(); VK_ASSERT(t == 0 && got >= size && got <= (int)d[i].size(), "a datagram beyond the configured size is cut at no less than that size"); all += d[i].substr(0, got); VK_ASSERT(same(b->rbuffer().rawbuf(), all.data(), (int)all.size()), "a datagram arrives whole, in order and unchanged"); if (got < (int)d[i].size()) vk_reach("cut");
    }
    VK_ASSERT(same(b->rbuffer().get_string(), all), "a datagram arrives whole, in order and unchanged"); vk_reach("oversize");
}
ENTRY nio_udp_large() {   // datagrams of the size that is configured by default, and of the greatest size
    env(0, 0, 0, 0); static const int L[] = {255, 508, 1023, 1024, 1472, 1500, 2047, 2048, 65507}; int len = L[choose(9, "length")]; sysconfig::udp_buffer_size = len > 2048 ? 65507 : choose(2, "larger buffer") ? 4096 : 2048; bool local = choose(2, "local"); family fam = local ? family::local : family::ipv6; bool keep = choose(2, "kept"), mixed = choose(2, "short ones between");
    auto a = nio_factory::get_nsockudp(fam), b = nio_factory::get_nsockudp(fam); if (local) b->bind_unix("/b"); else { a->bind("::1", 5001); b->bind("::1", 5002); } std::string all;
    for (int i = 0; i < 3; ++i) {
        int n = mixed && i == 1 ? 3 : len; std::string d((size_t)n, 0); for (int k = 0; k < n; ++k) d[k] = (char)(k * 7 + k / 256 + i); a->wbuffer().put_string(d); int t = throws_sys([&] { if (local) a->send_unix("/b"); else a->send("::1", 5002); }); VK_ASSERT(t == 0 && a->wbuffer().size() == 0, "an accepted send reports nothing");
        if (!keep) { b->rbuffer().clear(); all.clear(); } t = throws_sys([&] { b->recv(); }); all += d; VK_ASSERT(t == 0 && b->rbuffer().size() == (int)all.size() && !memcmp(b->rbuffer().rawbuf(), all.data(), all.size()), "a datagram arrives whole, in order and unchanged");
    }
    vk_reach(local ? "local" : "network");
}
ENTRY nio_udp_many() {    // many datagrams waiting
    env(0, 0, 0, 0); sysconfig::udp_buffer_size = 16; auto a = nio_factory::get_nsockudp(family::ipv4), b = nio_factory::get_nsockudp(family::ipv4), c = nio_factory::get_nsockudp(family::ipv4); a->bind("127.0.0.1", 5001); c->bind("127.0.0.1", 65535); b->bind("127.0.0.1", 5002); int n = param("many", 40); bool keep = choose(2, "kept"); std::string all;
    for (int i = 0; i < n; ++i) { auto &s = i % 3 ? a : c; s->wbuffer().put_string(std::string((size_t)(i % 17), (char)('a' + i % 23))); s->send("127.0.0.1", 5002); }
    for (int i = 0; i < n; ++i) { if (!keep) { b->rbuffer().clear(); all.clear(); } auto from = b->recv(); all += std::string((size_t)(i % 17), (char)('a' + i % 23)); VK_ASSERT(b->rbuffer().size() == (int)all.size() && !memcmp(b->rbuffer().rawbuf(), all.data(), all.size()), "a datagram arrives whole, in order and unchanged"); VK_ASSERT(std::get<1>(from) == (i % 3 ? 5001 : 65535), "the sender is reported"); }
    vk_reach("many");
}
ENTRY nio_udp_empty() {   // an empty datagram is a datagram
    env(0, 0, 0, 0); sysconfig::udp_buffer_size = 8;
    auto a = nio_factory::get_nsockudp(family::ipv4), b = nio_factory::get_nsockudp(family::ipv4);
    a->bind("127.0.0.1", 5001); b->bind("127.0.0.1", 5002);
    std::tuple<std::string, int, family> from;
    int t = throws_sys([&] { a->send("127.0.0.1", 5002); from = b->recv(); });
    VK_ASSERT(t == 0, "an empty datagram is sent and received"); VK_ASSERT(b->rbuffer().size() == 0 && std::get<1>(from) == 5001, "an empty datagram has no content and its sender is reported");
    vk_reach("empty");
}
// ---------------------------------------------------------------- shutdown
ENTRY nio_shutdown() {
    env(0, 0, 0, 0); int fd[2]; bool ip = choose(2, "ipv4"); family fam = ip ? family::ipv4 : family::local;
    if (!ip) raw_pair(fd); else { int l = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(7000); a.sin_addr.s_addr = htonl(0x7f000001); ::bind(l, (sockaddr *)&a, sizeof a); ::listen(l, 2); fd[0] = ::socket(AF_INET, SOCK_STREAM, 0); ::connect(fd[0], (sockaddr *)&a, sizeof a); fd[1] = ::accept(l, nullptr, nullptr); }
    nsocktcp s(fd[0], fam); nstream p(fd[1]);
    shut_mode m = (shut_mode)choose(3, "mode"); std::string out = anystr(2, "byte"), in = anystr(2, "byte");
    bool rd = m != shut_mode::shut_wr, wr = m != shut_mode::shut_rd, early = choose(2, "bytes waiting in the buffer"), again = choose(2, "twice"), sent = choose(2, "bytes under way");
    if (sent) { s.wbuffer().put_string("zz"); s.write_all(); } if (early) { s.wbuffer().put_string(out); s.rbuffer().put_string(in); }
    s.shutdown(m); if (again) s.shutdown(m);
    VK_ASSERT(!s.eof() && !s.eop() && !s.is_reset(), "shutdown itself reports no end of the stream");
    if (!early) s.wbuffer().put_string(out); else VK_ASSERT(same(s.rbuffer().get_string(), in) && s.wbuffer().size() == 2, "shutdown leaves the buffers alone");
    int before = sent ? 2 : 0; if (sent || wr) { p.read_all(); VK_ASSERT(p.rbuffer().size() == before && p.eof() == wr, "the peer sees the end of the stream exactly when the sending side was shut down"); p.rbuffer().clear(); }
    int w = s.write_all();
    VK_ASSERT(w == (wr ? 0 : 2) && s.eop() == wr, "writing fails exactly when the sending side was shut down");
    p.read_all(); VK_ASSERT(p.rbuffer().size() == w && p.eof() == wr && (wr || same(p.rbuffer().get_string(), out)), "the peer sees the end of the stream exactly when the sending side was shut down");
    VK_ASSERT(!s.is_closed() && vkw_fd_open(fd[0]), "shutdown keeps the descriptor");
    if (!rd) { p.wbuffer().put_string(in); p.write_all(); s.read_all(); VK_ASSERT(s.rbuffer().size() == 2 && !s.eof() && same(s.rbuffer().get_string(), in), "receiving continues when only the sending side was shut down"); }
    else { s.read_all(); VK_ASSERT(s.eof(), "reading ends when the receiving side was shut down"); }
    vk_reach("shut");
}
// ---------------------------------------------------------------- tuning parameters, changed at any time
ENTRY nio_shutdown_ended() {   // the peer has ended its own direction already
    env(0, 0, 0, 0); int fd[2]; raw_pair(fd); nsocktcp s(fd[0], family::local); shut_mode m = (shut_mode)choose(3, "mode"); bool rd = m != shut_mode::shut_wr, wr = m != shut_mode::shut_rd, seen = choose(2, "seen"); std::string out = anystr(2, "byte"); char b[8];
    ::fcntl(fd[1], F_SETFL, O_NONBLOCK); ::shutdown(fd[1], SHUT_WR); if (seen) { s.read_all(); VK_ASSERT(s.eof(), "the end of the stream is reported"); } s.shutdown(m); s.wbuffer().put_string(out); int w = s.write_all(); VK_ASSERT(w == (wr ? 0 : 2) && s.eop() == wr, "writing fails exactly when the sending side was shut down");
    int r = (int)::read(fd[1], b, 8); VK_ASSERT(wr ? r == 0 : (r == 2 && same(b, out.data(), 2)), "the peer sees the end of the stream exactly when the sending side was shut down"); s.read_all(); VK_ASSERT(s.eof() && s.rbuffer().size() == 0, "reading ends when the receiving side was shut down"); (void)rd; ::close(fd[1]); vk_reach("ended");
}
ENTRY nio_tuned() {
    env(0, param("shorts", 1), 0, 0); vkw.pipe_cap = vkw.sock_cap = 1 + choose(2, "capacity") * 63; static const int steps[4] = {1, 2, 3, 1024}; int n = param("len", 4); std::string d = anystr(n, "byte"), got;
    auto v = nio_factory::get_pipes(); v[1]->wbuffer().put_string(d); arm(true);
    for (int i = 0; i < n; ++i) { sysconfig::buffer_io_step = steps[i < 2 ? choose(4, "step") : 3]; v[1]->write_all(); if (i < 1) sysconfig::buffer_io_step = steps[choose(4, "step")]; v[0]->read_all(); if (i == n - 1 || (i < 2 && choose(2, "take"))) got += v[0]->rbuffer().get_string(); }
    arm(false); for (int i = 0; i < 2; ++i) { v[1]->write_all(); v[0]->read_all(); got += v[0]->rbuffer().get_string(); }
    VK_ASSERT((int)got.size() + v[1]->wbuffer().size() + vkw_pipe_len(v[0]->fd()) == n && same(got, d.substr(0, got.size())), "the step of transfers changes nothing that is transferred");
    VK_ASSERT(got.size() == d.size(), "the step of transfers changes nothing that is transferred"); vk_reach("all received");
}
ENTRY nio_tuned_large() {
    int n = param("len", 204800); env(0, 0, 0, 0); vkw.pipe_cap = choose(2, "capacity") ? n : 70000; static const int steps[6] = {64, 1000, 4096, 65536, 70001, 1 << 20}; std::string d(n, 0), got; for (int i = 0; i < n; ++i) d[i] = (char)(i * 7 + i / 251);
    auto v = nio_factory::get_pipes(); v[1]->wbuffer().put_string(d); int ws = steps[choose(6, "write step")], rs = steps[choose(6, "read step")]; int rounds = 0;
    while (rounds < 8 && (int)got.size() < n) { ++rounds; sysconfig::buffer_io_step = ws; int before = v[1]->wbuffer().size(), w = v[1]->write_all(); VK_ASSERT(w == std::min(before, vkw.pipe_cap) && v[1]->wbuffer().size() == before - w, "writing all writes what the channel takes whatever the step"); sysconfig::buffer_io_step = rs; int r = v[0]->read_all(); VK_ASSERT(r == w, "reading all reads what there is whatever the step"); got += v[0]->rbuffer().get_string(); }
    VK_ASSERT(got == d, "the step of transfers changes nothing that is transferred"); vk_reach("large");
}
// two threads with objects of their own
static int nt_kind; static bool nt_ok[2];
static void *nt_run(void *a) {
    int i = (int)(long)a; bool ok = true; std::string d = i ? "hello" : "ab";
    if (nt_kind == 0) { auto v = nio_factory::get_pipes(); v[1]->wbuffer().put_string(d); ok = v[1]->write_all(2) == (int)d.size() && v[0]->read_all(2) == (int)d.size() && v[0]->rbuffer().get_string() == d && !v[0]->eof() && !v[1]->eop(); v[1]->close(); ok = ok && v[0]->read_chunk(4) == 0 && v[0]->eof(); }
    else if (nt_kind == 1) { nsocktcp t(::socket(AF_INET, SOCK_STREAM, 0), family::ipv4); nsockudp u(::socket(AF_INET, SOCK_DGRAM, 0), family::ipv4); t.set_so_reuseaddr(i); t.set_so_reuseport(!i); t.set_so_keepalive(i); t.set_tcp_nodelay(!i); t.set_so_linger(true, 5 + i); t.set_so_rcvbuf(4096 + 4096 * i); t.set_so_sndbuf(5000 + 4096 * i); t.set_so_rcvlowat(2 + i); u.set_so_broadcast(i);
        ok = t.get_so_reuseaddr() == i && t.get_so_reuseport() == !i && t.get_so_keepalive() == i && t.get_tcp_nodelay() == !i && t.get_so_linger() == std::make_pair(true, 5 + i) && t.get_so_rcvbuf() == 8192 + 8192 * i && t.get_so_sndbuf() == 10000 + 8192 * i && t.get_so_rcvlowat() == 2 + i && u.get_so_broadcast() == i && t.get_so_error() == 0; }
    else if (nt_kind == 2) { std::string ip = "127.0.0." + std::to_string(i + 1); auto l = nio_factory::get_nsocktcp(family::ipv4), c = nio_factory::get_nsocktcp(family::ipv4); l->bind(ip, 6000 + i); l->listen(); ok = l->sockname() == std::make_tuple(ip, 6000 + i, family::ipv4) && c->connect(ip, 6000 + i) && c->check_connect(); auto v = l->accept(); ok = ok && v.size() == 1 && v[0]->sockname() == l->sockname() && v[0]->peername() == c->sockname() && c->peername() == l->sockname(); }
    else { auto u = nio_factory::get_nsockudp(family::ipv4); u->bind("127.0.0.1", 6100 + i); u->wbuffer().put_string(d); u->send("127.0.0.1", 6100 + i); ok = u->recv() == std::make_tuple(std::string("127.0.0.1"), 6100 + i, family::ipv4) && u->rbuffer().get_string() == d && u->wbuffer().size() == 0; }
    nt_ok[i] = ok; return nullptr;
}
ENTRY nio_threads() {
    env(0, 0, 0, 0); int base = vkw_open_fds(); nt_kind = param("kind", 0); vkw.preempt_ops = VKP_IO | VKP_THREAD; vkw.preempt = 1; pthread_t t[2]; for (long i = 0; i < 2; ++i) pthread_create(&t[i], nullptr, nt_run, (void *)i); for (auto x : t) pthread_join(x, nullptr); vkw.preempt = 0;
    for (int i = 0; i < 2; ++i) VK_ASSERT(nt_ok[i], "two threads that use objects of their own do not disturb each other"); VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "no descriptor is left open"); vk_reach("threads");
}
ENTRY nio_udp_tuned() {
    env(0, 0, 0, 0); static const int sizes[4] = {3, 4, 16, 2048}; sysconfig::udp_buffer_size = sizes[choose(4, "size")]; auto a = nio_factory::get_nsockudp(family::ipv4), b = nio_factory::get_nsockudp(family::ipv4); a->bind("127.0.0.1", 5001); b->bind("127.0.0.1", 5002); std::string all;
    for (int i = 0; i < 3; ++i) { int len = choose(5, "len"); if (i == 1 && choose(2, "changed")) sysconfig::udp_buffer_size = sizes[choose(4, "size")]; if (len == 4) len = std::min(20, sysconfig::udp_buffer_size); std::string d = anystr(len, "byte"); a->wbuffer().put_string(d); a->send("127.0.0.1", 5002); b->recv(); all += d; VK_ASSERT(same(std::string(b->rbuffer().rawbuf(), b->rbuffer().size()), all), "the configured size changes nothing about datagrams that fit"); if (choose(2, "take")) { b->rbuffer().clear(); all.clear(); } }
    vk_reach("received");
}
