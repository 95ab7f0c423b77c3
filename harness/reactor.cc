#include "net.h"
#include "cppev/tcp.h"
#include <netinet/in.h>
using namespace cppev;
using reactor::async_write; using reactor::safely_close;
typedef std::shared_ptr<nsocktcp> Sp;

static void setup(int preempt) {
    calm(); vkw.park_boot = 1; vkw.epoll_order = 0; sysconfig::event_number = 4; sysconfig::buffer_io_step = 2;
    vkw.preempt_ops = VKP_EPOLL | VKP_LOCK | VKP_IO; (void)preempt;
}
// the raw side of a connection: ipv4 and ipv6 on the loopback address, local on /s
static socklen_t raw_addr(sockaddr_storage &st, int port, family f) {
    memset(&st, 0, sizeof st);
    if (f == family::local) { sockaddr_un *u = (sockaddr_un *)&st; u->sun_family = AF_UNIX; strcpy(u->sun_path, "/s"); return sizeof *u; }
    if (f == family::ipv6) { sockaddr_in6 *a = (sockaddr_in6 *)&st; a->sin6_family = AF_INET6; a->sin6_port = htons((uint16_t)port); a->sin6_addr = in6addr_loopback; return sizeof *a; }
    sockaddr_in *a = (sockaddr_in *)&st; a->sin_family = AF_INET; a->sin_port = htons((uint16_t)port); a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); return sizeof *a;
}
static int raw_connect(int port, family f = family::ipv4) {
    sockaddr_storage a; socklen_t l = raw_addr(a, port, f);
    int fd = ::socket(a.ss_family, SOCK_STREAM, 0); ::connect(fd, (sockaddr *)&a, l); ::fcntl(fd, F_SETFL, O_NONBLOCK); return fd;
}
static int raw_listen(int port, family f = family::ipv4) {
    sockaddr_storage a; socklen_t l = raw_addr(a, port, f);
    int fd = ::socket(a.ss_family, SOCK_STREAM, 0); ::bind(fd, (sockaddr *)&a, l); ::listen(fd, 8); ::fcntl(fd, F_SETFL, O_NONBLOCK); return fd;
}
static int raw_port(sockaddr_storage &a) { return a.ss_family == AF_UNIX ? 0 : ntohs(a.ss_family == AF_INET6 ? ((sockaddr_in6 *)&a)->sin6_port : ((sockaddr_in *)&a)->sin_port); }
// ---- what the application does in its callbacks, and what it has seen
enum { NONE, WRITE, CLOSE, WRITE_CLOSE };
struct Conn { void *sock; int opened, closed, ended; char got[16]; int ngot; char put[48]; int nput, writes, completes; int busy, tid, port; };
static Conn cs[24]; static int ncs, wagain = 1; static int onOpen, onRead, onWrite, onClosed, wlen, maxWrites;
static bool bad_order, bad_overlap, bad_thread, opened_twice, ownPort;
static Conn *find(const Sp &s) { for (int i = 0; i < ncs; ++i) if (cs[i].sock == s.get()) return &cs[i]; return nullptr; }
static void put(Conn *c, const Sp &s, int n) {
    char b[8]; for (int i = 0; i < n; ++i) c->put[c->nput + i] = b[i] = (char)(c->nput + i + 'A');
    c->nput += n; ++c->writes; s->wbuffer().produce(b, n); async_write(s);
}
static void doact(int a, Conn *c, const Sp &s, int n) {
    if ((a == WRITE || a == WRITE_CLOSE) && c->writes < maxWrites && !c->ended) put(c, s, n);
    if ((a == CLOSE || a == WRITE_CLOSE) && !c->ended) { c->ended = 1; safely_close(s); }
}
struct In { Conn *c; In(Conn *c) : c(c) { int t = vkw_self_tid(); if (c->tid && c->tid != t + 1) bad_thread = true; c->tid = t + 1; } ~In() { } };
static void cb_open(const Sp &s) {
    Conn *c = find(s); if (c) { opened_twice = true; return; }
    c = &cs[ncs++]; c->sock = s.get(); c->opened = 1; if (s->sockfamily() != family::local) c->port = std::get<1>(ownPort ? s->sockname() : s->peername()); In in(c); doact(onOpen, c, s, wlen);
}
static void cb_read(const Sp &s) {
    Conn *c = find(s); if (!c || c->ended || c->closed) { bad_order = true; return; } In in(c);
    int n = s->rbuffer().size(); for (int i = 0; i < n && c->ngot < 16; ++i) c->got[c->ngot++] = s->rbuffer()[i];
    if (n) doact(onRead, c, s, wlen);
}
static void cb_write(const Sp &s) { Conn *c = find(s); if (!c || c->ended || c->closed) { bad_order = true; return; } In in(c); ++c->completes; if (s->wbuffer().size()) bad_order = true; doact(onWrite, c, s, wagain); }
static void cb_closed(const Sp &s) { Conn *c = find(s); if (!c || c->ended) { bad_order = true; return; } In in(c); ++c->closed; if (c->closed == 1 && onClosed == CLOSE) { c->ended = 1; safely_close(s); } }
template <typename T> static void callbacks(T &x) { x.set_on_read_complete(cb_read); x.set_on_write_complete(cb_write); x.set_on_closed(cb_closed); }
static void sane() {
    VK_ASSERT(!opened_twice, "a connection is announced once");
    VK_ASSERT(!bad_order, "callbacks run after the connection was announced and never after it was closed");
    VK_ASSERT(!bad_thread, "all callbacks of a connection run in one thread");
    for (int i = 0; i < ncs; ++i) VK_ASSERT(cs[i].closed <= 1, "the end of a connection is announced at most once");
}
// the remote side of one connection
struct Peer { int fd; std::string got, sent; bool eof; int port; };
static void drain(Peer &p) { char b[16]; for (int k = 0; k < 12; ++k) { int n = (int)::read(p.fd, b, sizeof b); if (n > 0) p.got.append(b, n); else { if (n == 0 || errno == ECONNRESET) p.eof = true; return; } vkw_pause(); } }

// one server, connections from raw peers, arbitrary callback behaviour
// (or one client, connections to a raw listener)
static void traffic(bool client) {
    setup(0); vkw.sock_cap = param("cap", 3); wlen = param("wlen", 4); maxWrites = 2; vkw.sigpipe_kills = 1;
    onOpen = choose(4, "on open"); onRead = choose(4, "on read"); onWrite = choose(4, "on write"); if (onWrite == 3) { onWrite = WRITE; wagain = wlen; vk_reach("writes again"); } onClosed = choose(2, "on closed") ? CLOSE : NONE;
    int peers = param("peers", 1), base = vkw_open_fds(); Peer p[2]; family fam = !param("families", 0) ? family::ipv4 : choose(2, "family") ? family::ipv6 : family::local; const char *lo = fam == family::ipv6 ? "::1" : "127.0.0.1";
    {
        std::unique_ptr<reactor::tcp_server> srv; std::unique_ptr<reactor::tcp_client> cl; int lf = -1;
        if (client) { lf = raw_listen(60000, fam); ::fcntl(lf, F_SETFL, 0); ownPort = true; cl.reset(new reactor::tcp_client(param("workers", 1))); callbacks(*cl); cl->set_on_connect(cb_open); cl->run(); }
        else { srv.reset(new reactor::tcp_server(param("workers", 1))); callbacks(*srv); srv->set_on_accept(cb_open); if (fam == family::local) srv->listen_unix("/s"); else srv->listen(60000, fam, lo); srv->run(); }
        int own = vkw_open_fds();   // the loops, the listening socket, the pipe of the connector
        vkw.preempt = param("preempt", 0);
        if (client) { if (fam == family::local) cl->add_unix("/s", peers); else cl->add(lo, 60000, fam, peers); }
        for (int i = 0; i < peers; ++i) { p[i].eof = false; sockaddr_storage a; socklen_t l = sizeof a; if (client) { p[i].fd = ::accept(lf, (sockaddr *)&a, &l); ::fcntl(p[i].fd, F_SETFL, O_NONBLOCK); } else { p[i].fd = raw_connect(60000, fam); ::getsockname(p[i].fd, (sockaddr *)&a, &l); } p[i].port = fam == family::local ? 0 : raw_port(a); }
        int early = choose(2, "send before being accepted");
        if (!early) vkw_pause();
        int n = param("len", 3);
        for (int i = 0; i < peers; ++i) for (int k = 0; k < n; ++k) { char c = (char)u8("byte"); if (::write(p[i].fd, &c, 1) == 1) p[i].sent += c; if (choose(2, "pause") && !early) vkw_pause(); }
        int leave = choose(6, "leave");   // 0 stays, 1 closes after reading everything, 2 closes at once, 3 resets at once, 4 becomes unreachable, 5 ends its own writing and reads on
        bool atonce = leave >= 2 && leave != 5;
        if (leave == 3) { for (int i = 0; i < peers; ++i) { vkw_reset_conn(p[i].fd); ::close(p[i].fd); } vk_reach("reset"); }
        else if (leave == 4) { for (int i = 0; i < peers; ++i) { vkw_fail_conn(p[i].fd, ETIMEDOUT); ::close(p[i].fd); } vk_reach("unreachable"); }
        else if (leave == 2) for (int i = 0; i < peers; ++i) ::close(p[i].fd);
        else { if (leave == 5) { for (int i = 0; i < peers; ++i) ::shutdown(p[i].fd, SHUT_WR); vk_reach("half closed"); } for (int i = 0; i < peers; ++i) { vkw_pause(); drain(p[i]); if (leave) ::close(p[i].fd); } }
        vkw_pause();
        sane();
        if (client && early && atonce && leave >= 3) VK_ASSERT(ncs <= peers, "every connection is announced"); else VK_ASSERT(ncs == peers, "every connection is announced");   // broken before the client noticed that it was made
        for (int i = 0; i < ncs; ++i) {
            Conn &c = cs[i]; int w = 0; for (int k = 0; k < peers; ++k) if (p[k].port == c.port) w = k; Peer &q = p[w]; VK_ASSERT(q.port == c.port, "a connection carries the address of its peer");
            bool appClosed = c.ended && !c.closed;
            VK_ASSERT(c.ngot <= (int)q.sent.size() && same(c.got, q.sent.data(), c.ngot), "received bytes are the bytes the peer sent, in order");
            if (!c.ended && !(atonce && c.writes)) VK_ASSERT(c.ngot == (int)q.sent.size(), "every byte the peer sent is delivered");
            if (!atonce) {
                VK_ASSERT((int)q.got.size() <= c.nput && same(q.got.data(), c.put, (int)q.got.size()), "the peer receives the written bytes in order");
                if (!c.ended || c.closed) { VK_ASSERT((int)q.got.size() == c.nput, "every written byte reaches the peer"); VK_ASSERT(c.completes == c.writes, "every write is reported complete exactly once"); if (c.nput > vkw.sock_cap) vk_reach("more than the socket takes"); }
            }
            VK_ASSERT(c.closed == (leave && !appClosed ? 1 : 0), "the end of a connection is announced exactly when the peer closed it");
            if (c.closed) vk_reach("peer closed"); if (appClosed) { vk_reach("application closed"); if (leave == 0) VK_ASSERT(q.eof, "closing a connection is visible to the peer"); }
        }
        int open = 0; for (int i = 0; i < ncs; ++i) open += !cs[i].closed && !cs[i].ended;
        int mine = leave ? 0 : peers;
        VK_ASSERT(vkw_open_fds() == own + open + mine, "finished connections release their descriptors, live ones keep theirs");
        vkw.preempt = 0;
        if (client) { cl->shutdown(); ::close(lf); } else srv->shutdown();
        VK_ASSERT(vkw_threads_alive() == 0, "shutdown ends every thread");
        if (leave == 0) for (int i = 0; i < peers; ++i) ::close(p[i].fd);
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
    vk_reach("done");
}
ENTRY rx_server() { traffic(false); }
ENTRY rx_client_feed() { traffic(true); }
// connections spread over the workers
static int lo_, hi_, used_;
static void count(int workers) { int cnt[24] = {}; lo_ = 99; hi_ = used_ = 0; for (int i = 0; i < ncs; ++i) if (!cs[i].closed && !cs[i].ended) ++cnt[cs[i].tid]; for (int w = 0; w < 24; ++w) if (cnt[w]) { ++used_; lo_ = std::min(lo_, cnt[w]); hi_ = std::max(hi_, cnt[w]); } if (used_ < workers) lo_ = 0; }
ENTRY rx_balance() {
    setup(0); sysconfig::event_number = 8; int workers = param("workers", 2), n = param("peers", 4); int fds[8], base = vkw_open_fds(), lf = -1; vkw.connect_imm = 0;
    bool client = choose(2, "client");
    {
        std::unique_ptr<reactor::tcp_server> srv; std::unique_ptr<reactor::tcp_client> cl;
        if (client) { lf = raw_listen(60000); ownPort = true; cl.reset(new reactor::tcp_client(workers)); callbacks(*cl); cl->set_on_connect(cb_open); cl->run(); }
        else { srv.reset(new reactor::tcp_server(workers)); callbacks(*srv); srv->set_on_accept(cb_open); srv->listen(60000, family::ipv4, "127.0.0.1"); srv->run(); }
        auto take = [&](int i, int k) { if (client) cl->add("127.0.0.1", 60000, family::ipv4, k); else for (int j = 0; j < k; ++j) fds[i + j] = raw_connect(60000); vkw_pause(); if (client) for (int j = 0; j < k; ++j) { fds[i + j] = ::accept(lf, nullptr, nullptr); ::fcntl(fds[i + j], F_SETFL, O_NONBLOCK); } };
        auto at = [&](int fd) { sockaddr_storage a; socklen_t l = sizeof a; if (client) ::getpeername(fd, (sockaddr *)&a, &l); else ::getsockname(fd, (sockaddr *)&a, &l); int port = raw_port(a); for (int i = 0; i < ncs; ++i) if (cs[i].port == port) return i; return -1; };
        vkw.preempt = param("preempt", 0); vkw_pause();
        int burst = choose(n, "together");
        if (burst) {
            n = burst + 1; take(0, n); VK_ASSERT(ncs == n, "every connection is announced"); count(workers);
            VK_ASSERT(hi_ - lo_ <= 1, "connections that arrive together are spread evenly"); vk_reach(client ? "client" : "together");
        } else {
            int after = choose(n, "one leaves after"), which = after ? choose(after, "which") : 0;
            for (int i = 0; i < n; ++i) {
                if (after && i == after) { int c = at(fds[which]), own = after > 1 ? choose(2, "application closes") : 1; if (own) { onRead = CLOSE; ::write(fds[which], "x", 1); vkw_pause(); vk_reach("application closed"); } ::close(fds[which]); vkw_pause(); VK_ASSERT(c >= 0 && (own ? cs[c].ended : cs[c].closed) == 1, "the end of a connection is announced exactly when the peer closed it"); vk_reach("one left"); }
                count(workers); int before[24] = {}, min = lo_; for (int k = 0; k < ncs; ++k) if (!cs[k].closed && !cs[k].ended) ++before[cs[k].tid];
                take(i, 1); VK_ASSERT(ncs == i + 1, "every connection is announced");
                VK_ASSERT(before[cs[i].tid] == min, "a new connection goes to a worker with the fewest connections");
            }
            vk_reach("spread");
            if (after) fds[which] = -1;
        }
        sane();
        vkw.preempt = 0; if (client) { cl->shutdown(); ::close(lf); } else srv->shutdown();
        for (int i = 0; i < n; ++i) if (fds[i] >= 0) ::close(fds[i]);
    }
    VK_ASSERT(vkw_open_fds() == base, "destruction releases every descriptor once");
}
// many connections per worker, one at a time, some of them left by the peer
ENTRY rx_balance_many() {
    setup(0); sysconfig::event_number = 64; int workers = range(2, param("workers", 3), "workers"), n = param("peers", 14), fds[24], base = vkw_open_fds(); vkw.order = 1 + choose(3, "order"); int third = choose(2, "every third leaves");
    {
        reactor::tcp_server srv(workers); callbacks(srv); srv.set_on_accept(cb_open); srv.listen(60000, family::ipv4, "127.0.0.1"); srv.run(); vkw_pause();
        for (int i = 0; i < n; ++i) {
            int before[24] = {}, lo = 99; for (int k = 0; k < ncs; ++k) if (!cs[k].closed) ++before[cs[k].tid]; count(workers); lo = lo_;
            fds[i] = raw_connect(60000); vkw_pause(); VK_ASSERT(ncs == i + 1, "every connection is announced"); VK_ASSERT(before[cs[i].tid] == lo, "a new connection goes to a worker with the fewest connections");
            if (third && i % 3 == 2) { ::close(fds[i - i % 2]); fds[i - i % 2] = -1; vkw_pause(); }
        }
        sane(); srv.shutdown(); for (int i = 0; i < n; ++i) if (fds[i] >= 0) ::close(fds[i]); vk_reach("many");
    }
    VK_ASSERT(vkw_open_fds() == base, "destruction releases every descriptor once");
}
// client: as many attempts as asked for, each success announced once
ENTRY rx_client() {
    setup(0); vkw.connect_imm = 1; vkw.connect_fail = param("fails", 1); int base = vkw_open_fds();
    int conts = range(1, param("conts", 2), "connectors"), t = range(0, param("max", 3), "count"), kind = choose(3, "target");   // 0 ipv4 listener, 1 unix listener, 2 nobody listens
    onOpen = choose(3, "on open"); wlen = 2; maxWrites = 1; vkw.sock_cap = 4;
    {
        int lf = -1;
        if (kind == 0) lf = raw_listen(60000);
        if (kind == 1) lf = raw_listen(0, family::local);
        reactor::tcp_client cl(1, conts); callbacks(cl); cl.set_on_connect(cb_open); int own = vkw_open_fds();
        bool early = choose(2, "add before run");
        auto add = [&](int n) { if (kind == 1) cl.add_unix("/s", n); else cl.add("127.0.0.1", 60000, family::ipv4, n); };
        if (!early) cl.run();
        vkw.preempt = early ? 0 : param("preempt", 1);
        int split = choose(2, "two calls") ? choose(t + 1, "first") : t;
        add(split); if (t - split) add(t - split);
        if (early) cl.run();
        vkw_pause();
        int fails = param("fails", 1) - vkw.connect_fail, good = kind == 2 ? 0 : t - fails, n = 0; Peer p[8];
        for (int i = 0; i < 8 && lf >= 0; ++i) { int f = ::accept(lf, nullptr, nullptr); if (f < 0) break; p[n].fd = f; p[n].eof = false; ::fcntl(f, F_SETFL, O_NONBLOCK); ++n; }
        vkw_pause();
        VK_ASSERT(n == good, "as many connections are made as asked for"); 
        VK_ASSERT(ncs == good, "every connection made is announced once, failed ones are not");
        sane();
        int open = 0;
        for (int i = 0; i < n; ++i) { drain(p[i]); if (onOpen == WRITE) VK_ASSERT(p[i].got.size() == 2 && p[i].got[0] == 'A' && p[i].got[1] == 'B', "every written byte reaches the peer"); if (onOpen == CLOSE) VK_ASSERT(p[i].eof, "closing a connection is visible to the peer"); open += onOpen != CLOSE; }
        VK_ASSERT(vkw_open_fds() == own + n + open, "failed attempts release their descriptors");
        if (good == t && t > 1) vk_reach("connected"); if (good < t) vk_reach("failed attempts");
        for (int i = 0; i < n; ++i) ::close(p[i].fd);
        vkw_pause(); 
        for (int i = 0; i < ncs; ++i) VK_ASSERT(cs[i].closed == (cs[i].ended ? 0 : 1), "the end of a connection is announced exactly when the peer closed it");
        vkw.preempt = 0; cl.shutdown(); VK_ASSERT(vkw_threads_alive() == 0, "shutdown ends every thread");
        if (lf >= 0) ::close(lf);
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// client used from two threads at once
static reactor::tcp_client *gcl;
ENTRY rx_client_threads() {
    setup(0); vkw.connect_imm = 0; int lf = raw_listen(60000);
    {
        int conts = range(1, 2, "connectors"); reactor::tcp_client cl(1, conts); gcl = &cl; callbacks(cl); cl.set_on_connect(cb_open); cl.run();
        vkw.preempt = param("preempt", 1);
        Thr t; if (conts == 1) t.start([](void *) -> void * { gcl->add("127.0.0.1", 60000, family::ipv4, 1); return nullptr; }, nullptr);
        cl.add("127.0.0.1", 60000, family::ipv4, conts);
        if (conts == 1) t.join(); vkw_pause();
        vkw.preempt = 0; cl.shutdown();
        VK_ASSERT(ncs == 2, "as many connections are made as asked for"); vk_reach("connected");
    }
    ::close(lf);
}
// shutdown at an arbitrary moment
ENTRY rx_shutdown() {
    setup(0); int base = vkw_open_fds(); bool server = choose(2, "server"); int fd = -1, lf = -1; vkw.sigpipe_kills = 1;
    vkw.preempt_ops = VKP_EPOLL | VKP_LOCK | VKP_IO | VKP_ATOMIC | VKP_THREAD;
    onRead = WRITE; wlen = 2; maxWrites = 1;
    if (server) {
        reactor::tcp_server s(param("workers", 1)); callbacks(s); s.set_on_accept(cb_open); s.listen(60000, family::ipv4, "127.0.0.1"); if (choose(2, "second listener")) s.listen_unix("/s");
        vkw.preempt = param("preempt", 2); s.run();
        if (choose(2, "connection")) { fd = raw_connect(60000); ::write(fd, "x", 1); }
        s.shutdown(); vkw.preempt = 0; VK_ASSERT(vkw_threads_alive() == 0, "shutdown ends every thread"); sane(); vk_reach("server");
    } else {
        lf = raw_listen(60000);
        reactor::tcp_client c(1, range(1, 2, "connectors")); callbacks(c); c.set_on_connect(cb_open);
        vkw.preempt = param("preempt", 2); c.run();
        if (choose(2, "connection")) c.add("127.0.0.1", 60000, family::ipv4, 1);
        c.shutdown(); vkw.preempt = 0; VK_ASSERT(vkw_threads_alive() == 0, "shutdown ends every thread"); sane(); vk_reach("client");
    }
    if (fd >= 0) ::close(fd); if (lf >= 0) ::close(lf);
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
ENTRY rx_idle_shutdown() {   // nothing to listen to, nothing to connect to
    setup(0); int base = vkw_open_fds(), k = choose(2, "server"), w = range(1, 3, "workers"); vkw.preempt_ops = VKP_EPOLL | VKP_LOCK | VKP_THREAD; { std::unique_ptr<reactor::tcp_server> s; std::unique_ptr<reactor::tcp_client> c; if (k) s.reset(new reactor::tcp_server(w)); else c.reset(new reactor::tcp_client(w, w == 1 ? 1 : range(1, 2, "connectors")));
      vkw.order = 1 + choose(3, "order"); vkw.preempt = w == 1; if (k) s->run(); else c->run(); if (choose(2, "wait")) vkw_pause(); if (k) s->shutdown(); else c->shutdown(); vkw.preempt = 0; VK_ASSERT(vkw_threads_alive() == 0, "shutdown ends every thread"); vk_reach(k ? "server" : "client"); }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
ENTRY rx_external() {   // user data and the five callbacks default to nothing
    setup(0); static int tag; static void *seen; int fd;
    { reactor::tcp_server s(1, &tag); if (choose(2, "handler")) s.set_on_accept([](const Sp &p) { seen = reactor::external_data(p); }); else seen = &tag;
      s.listen(60000, family::ipv4, "127.0.0.1"); s.run(); fd = raw_connect(60000); ::write(fd, "ab", 2); vkw_pause(); VK_ASSERT(seen == &tag, "callbacks reach the data given to the server"); ::close(fd); vkw_pause(); s.shutdown(); vk_reach("external"); }
}
// two servers and two clients in one program, each with callbacks and data of its own
struct Duo { int tag; int opened, closed, completes, calls, tid; std::string in; bool bad; Sp keep; }; static Duo duo_[4];   // 0, 1 servers; 2, 3 clients
template <typename T> static void duo_set(T &x, int k) {
    Duo *d = &duo_[k];
    x.set_on_read_complete([d, k](const Sp &p) { if (reactor::external_data(p) != d) d->bad = true; d->tid = vkw_self_tid(); std::string s = p->rbuffer().get_string(); d->in += s; ++d->calls; if (k < 2 && s.size()) { p->wbuffer().put_string(s + (char)('a' + k)); async_write(p); } });
    x.set_on_write_complete([d](const Sp &p) { if (reactor::external_data(p) != d) d->bad = true; ++d->completes; }); x.set_on_closed([d](const Sp &p) { if (reactor::external_data(p) != d) d->bad = true; ++d->closed; });
}
ENTRY rx_two() {
    setup(0); sysconfig::buffer_io_step = 64; int base = vkw_open_fds(); vkw.sigpipe_kills = 1; vkw.connect_imm = 0; if (param("order", 1)) vkw.order = 1 + choose(3, "order"); bool crossed = choose(2, "crossed"), gone = choose(2, "one server ends"), client = choose(2, "clients");
    {
        reactor::tcp_server a(1, &duo_[0]), b(1, &duo_[1]); std::unique_ptr<reactor::tcp_client> c, d; if (client) { c.reset(new reactor::tcp_client(1, 1, &duo_[2])); d.reset(new reactor::tcp_client(1, 1, &duo_[3])); duo_set(*d, 3); duo_set(*c, 2); } duo_set(a, 0); duo_set(b, 1);
        auto opened = [](const Sp &p) { Duo *x = (Duo *)reactor::external_data(p); ++x->opened; x->keep.reset(); }; a.set_on_accept(opened); b.set_on_accept(opened);
        a.listen(60000, family::ipv4, "127.0.0.1"); b.listen(60001, family::ipv4, "127.0.0.1"); a.run(); b.run(); int fd[2] = {-1, -1};
        if (client) { c->set_on_connect([](const Sp &p) { Duo *x = (Duo *)reactor::external_data(p); if (x != &duo_[2]) duo_[2].bad = true; ++duo_[2].opened; p->wbuffer().put_string("p"); async_write(p); }); d->set_on_connect([](const Sp &p) { Duo *x = (Duo *)reactor::external_data(p); if (x != &duo_[3]) duo_[3].bad = true; ++duo_[3].opened; p->wbuffer().put_string("qq"); async_write(p); });
            c->run(); d->run(); vkw.preempt = param("preempt", 0); (crossed ? d : c)->add("127.0.0.1", 60000, family::ipv4); (crossed ? c : d)->add("127.0.0.1", 60001, family::ipv4); vkw_pause(); }
        else { for (int i = 0; i < 2; ++i) fd[i] = raw_connect(60000 + (crossed ? 1 - i : i)); vkw_pause(); ::write(fd[0], "p", 1); ::write(fd[1], "qq", 2); vkw_pause(); }
        vkw.preempt = 0; int sp = crossed ? 1 : 0, sq = 1 - sp; VK_ASSERT(duo_[sp].opened == 1 && duo_[sq].opened == 1, "every connection is announced"); VK_ASSERT(duo_[sp].in == "p" && duo_[sq].in == "qq", "every byte the peer sent is delivered"); for (Duo &x : duo_) VK_ASSERT(!x.bad, "callbacks reach the data given to the server"); VK_ASSERT(duo_[0].tid != duo_[1].tid, "all callbacks of a connection run in one thread"); VK_ASSERT(duo_[0].completes == 1 && duo_[1].completes == 1, "every write is reported complete exactly once");
        std::string ep = std::string("p") + (char)('a' + sp), eq = std::string("qq") + (char)('a' + sq); char buf[8];
        if (client) { VK_ASSERT(duo_[2].opened == 1 && duo_[3].opened == 1 && duo_[2].completes == 1 && duo_[3].completes == 1, "every connection made is announced once, failed ones are not"); VK_ASSERT(duo_[2].in == ep && duo_[3].in == eq, "every byte the peer sent is delivered"); }
        else { VK_ASSERT(::read(fd[0], buf, 8) == (int)ep.size() && same(buf, ep.data(), (int)ep.size()) && ::read(fd[1], buf, 8) == (int)eq.size() && same(buf, eq.data(), (int)eq.size()), "every written byte reaches the peer"); }
        if (gone) { if (client) { (crossed ? d : c)->shutdown(); } a.shutdown(); int f = raw_connect(60001); vkw_pause(); ::write(f, "z", 1); vkw_pause(); VK_ASSERT(duo_[1].opened == 2 && ::read(f, buf, 8) == 2 && buf[0] == 'z' && buf[1] == 'b', "ending one server leaves another working"); ::close(f); vkw_pause(); VK_ASSERT(duo_[1].closed >= 1, "the end of a connection is announced exactly when the peer closed it"); if (client) (crossed ? c : d)->shutdown(); vk_reach("one ended"); }
        else { if (client) { d->shutdown(); c->shutdown(); } a.shutdown(); } b.shutdown(); VK_ASSERT(vkw_threads_alive() == 0, "shutdown ends every thread"); for (int f : fd) if (f >= 0) ::close(f); for (Duo &x : duo_) VK_ASSERT(!x.bad, "callbacks reach the data given to the server"); vk_reach(client ? "clients" : "peers");
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// failing calls: descriptors used up for a while, attempts that raise an error
ENTRY rx_faults() {
    setup(0); int base = vkw_open_fds(), fd[2]; bool server = param("server", 0); vkw.sigpipe_kills = 1; wlen = 2; maxWrites = 1; onOpen = WRITE;
    if (server) {
        reactor::tcp_server s(1); callbacks(s); s.set_on_accept(cb_open); s.listen(60000, family::ipv4, "127.0.0.1"); s.run(); vkw_pause();
        vkw.faults = param("faults", 2); vkw.fault_ops = VKF_ACCEPT; int tog = choose(2, "together"); for (int i = 0; i < 2; ++i) { fd[i] = raw_connect(60000); if (!tog) vkw_pause(); } vkw_pause();
        VK_ASSERT(ncs == 2, "every connection is announced"); if (vkw.faults < param("faults", 2)) vk_reach("accept fault"); vkw.faults = 0; for (int i = 0; i < 2; ++i) { Peer p; p.fd = fd[i]; drain(p); VK_ASSERT(p.got == "AB", "every written byte reaches the peer"); ::close(fd[i]); } vkw_pause(); s.shutdown(); sane();
    } else {
        int lf = raw_listen(60000), what = choose(3, "what"), n = 0, f0 = param("faults", 2); reactor::tcp_client c(1, 1); callbacks(c); c.set_on_connect(cb_open); c.run();
        if (what == 0) { vkw.faults = f0; vkw.fault_ops = VKF_SOCKET | VKF_CONNECT; }
        if (what == 1) c.add(choose(2, "which") ? "nowhere" : "1.2.3.4.5", 60000, family::ipv4, 1); if (what == 2) c.add_unix(std::string(300, 'u'), 1);
        c.add("127.0.0.1", 60000, family::ipv4, 3); vkw_pause(); int lost = what ? 0 : f0 - vkw.faults; vkw.faults = 0;
        for (;;) { int f = ::accept(lf, nullptr, nullptr); if (f < 0) break; ++n; ::close(f); } VK_ASSERT(n == 3 - lost && ncs == n, "failed attempts disturb nothing else"); vkw_pause(); c.shutdown(); sane(); ::close(lf); vk_reach(what ? "refused" : "attempt fault");
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "failed attempts release their descriptors");
}
// amounts beyond one buffer, one page and what the socket takes, in both directions
static std::string big_in, big_out; static int big_calls, big_done, big_closed; static const char *big_pat(int i) { static char c; c = (char)(i * 7 + i / 251); return &c; }
ENTRY rx_large() {
    setup(0); sysconfig::buffer_io_step = param("io", 1024); vkw.sock_cap = param("cap", 6000); static int n, m; static bool look; look = choose(2, "leaves the bytes in the buffer"); bool half = choose(2, "ends its own writing"); n = param("in", 9000); m = param("out", 13000); int base = vkw_open_fds();
    big_out.resize(m); for (int i = 0; i < m; ++i) big_out[i] = *big_pat(i + 3);
    {
        bool client = param("client", 0); std::unique_ptr<reactor::tcp_server> sp; std::unique_ptr<reactor::tcp_client> cp; if (client) cp.reset(new reactor::tcp_client(1)); else sp.reset(new reactor::tcp_server(1));
        int mode = choose(2, "answer"); static int md; md = mode;   // 0 one answer at the end, 1 answers along the way
        auto rd = [](const Sp &p) { ++big_calls; if (look) big_in.append(p->rbuffer().rawbuf(), p->rbuffer().size()); else big_in += p->rbuffer().get_string(); static int at = 0; int upto = (int)big_in.size() == n ? m : md ? (int)((long)m * (long)big_in.size() / n) : 0; if (upto > at && p->wbuffer().size() == 0) { p->wbuffer().put_string(big_out.substr(at, upto - at)); at = upto; async_write(p); } };
        auto wr = [](const Sp &p) { ++big_done; if (p->wbuffer().size() || big_closed) bad_order = true; }; auto cl = [](const Sp &) { ++big_closed; };
        int fd, lf = -1; if (client) { cp->set_on_read_complete(rd); cp->set_on_write_complete(wr); cp->set_on_closed(cl); lf = raw_listen(60000); cp->run(); cp->add("127.0.0.1", 60000, family::ipv4); vkw_pause(); fd = ::accept(lf, nullptr, nullptr); ::fcntl(fd, F_SETFL, O_NONBLOCK); ::close(lf); }
        else { sp->set_on_read_complete(rd); sp->set_on_write_complete(wr); sp->set_on_closed(cl); sp->listen(60000, family::ipv4, "127.0.0.1"); sp->run(); fd = raw_connect(60000); }
        vkw_pause(); std::string in(n, 0), got; for (int i = 0; i < n; ++i) in[i] = *big_pat(i); static char b[4096];
        int sent = 0; for (int k = 0; k < 60; ++k) { if (sent < n) { int w = (int)::write(fd, in.data() + sent, n - sent); if (w > 0) sent += w; if (half && sent == n) ::shutdown(fd, SHUT_WR); } vkw_pause(); if (mode || sent == n) { int r = (int)::read(fd, b, sizeof b); if (r > 0) got.append(b, r); } vkw_pause(); }
        VK_ASSERT(big_in == in, "every byte the peer sent is delivered"); VK_ASSERT(!bad_order, "every write is reported complete exactly once"); if (!mode) { VK_ASSERT(got == big_out, "every written byte reaches the peer"); VK_ASSERT(big_done == 1, "every write is reported complete exactly once"); } else VK_ASSERT(got == big_out.substr(0, got.size()) && big_done >= 1, "the peer receives the written bytes in order");
        vk_reach(mode ? "along the way" : "at the end"); VK_ASSERT(big_closed == (half ? 1 : 0), "the end of a connection is announced exactly when the peer closed it"); ::close(fd); vkw_pause(); VK_ASSERT(big_closed == 1, "the end of a connection is announced exactly when the peer closed it"); if (client) cp->shutdown(); else sp->shutdown();
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// a write of nothing completes as any other
static int none_at, none_n, none_seen, none_done, none_closed; static bool none_late;
static void none_write(const Sp &p) { async_write(p); }
ENTRY rx_nothing() {
    setup(0); int base = vkw_open_fds(); none_at = choose(3, "where"); none_n = range(1, 2, "times"); bool client = choose(2, "client");
    {
        std::unique_ptr<reactor::tcp_server> sp; std::unique_ptr<reactor::tcp_client> cp; if (client) cp.reset(new reactor::tcp_client(1)); else sp.reset(new reactor::tcp_server(1));
        auto op = [](const Sp &p) { if (none_at == 0) none_write(p); }; auto rd = [](const Sp &p) { ++none_seen; if (none_at == 1) none_write(p); if (none_at == 2 && none_seen == 1) { p->wbuffer().put_string("ab"); async_write(p); } };
        auto wr = [](const Sp &p) { ++none_done; if (none_done < none_n) none_write(p); }; auto cl = [](const Sp &) { ++none_closed; }; int fd, lf = -1;
        if (client) { cp->set_on_connect(op); cp->set_on_read_complete(rd); cp->set_on_write_complete(wr); cp->set_on_closed(cl); lf = raw_listen(60000); cp->run(); cp->add("127.0.0.1", 60000, family::ipv4); vkw_pause(); fd = ::accept(lf, nullptr, nullptr); ::fcntl(fd, F_SETFL, O_NONBLOCK); ::close(lf); }
        else { sp->set_on_accept(op); sp->set_on_read_complete(rd); sp->set_on_write_complete(wr); sp->set_on_closed(cl); sp->listen(60000, family::ipv4, "127.0.0.1"); sp->run(); fd = raw_connect(60000); }
        vkw_pause(); char b[8]; ::write(fd, "x", 1); vkw_pause(); VK_ASSERT(none_seen == 1, "every byte the peer sent is delivered"); VK_ASSERT(none_done == none_n, "every write is reported complete exactly once"); int r = (int)::read(fd, b, sizeof b); VK_ASSERT(none_at == 2 ? r == 2 : r == -1, "the peer receives the written bytes in order");
        ::write(fd, "y", 1); vkw_pause(); VK_ASSERT(none_seen == 2 && none_done == none_n + (none_at == 1), "every byte the peer sent is delivered"); VK_ASSERT(!none_closed, "the end of a connection is announced exactly when the peer closed it"); ::close(fd); vkw_pause(); VK_ASSERT(none_closed == 1, "the end of a connection is announced exactly when the peer closed it"); if (client) cp->shutdown(); else sp->shutdown(); vk_reach(client ? "client" : "server");
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// a client and a server of the library in one process: the server echoes
static struct Side { void *sock; std::string in, msg; int opened, closed, ended, completes, writes; } sv[4], cv[4]; static int nsv, ncv, closer, msglen, conns; static bool stray;
static pthread_mutex_t sideLock = PTHREAD_MUTEX_INITIALIZER; struct SideGuard { bool on; SideGuard() : on(param("workers", 1) > 1) { if (on) pthread_mutex_lock(&sideLock); } ~SideGuard() { if (on) pthread_mutex_unlock(&sideLock); } };
static Side *side(Side *t, int &n, const Sp &s, bool open) { SideGuard g; for (int i = 0; i < n; ++i) if (t[i].sock == s.get() && !t[i].ended && !t[i].closed) { if (open) stray = true; return &t[i]; } if (!open || n >= 4) { stray = true; return &t[0]; } t[n].sock = s.get(); t[n].opened = 1; return &t[n++]; }
static void say(Side *d, const Sp &s, const std::string &m) { s->wbuffer().put_string(m); ++d->writes; async_write(s); }
ENTRY rx_both() {
    setup(0); int base = vkw_open_fds(); vkw.sigpipe_kills = 1; vkw.sock_cap = param("cap", 2); vkw.connect_imm = 0; conns = param("conns", 1); closer = choose(3, "closer"); msglen = range(1, param("len", 3), "length"); if (param("order", 0)) vkw.order = 1 + choose(3, "order"); std::string words[4];   // 0 client, 1 server, 2 nobody
    for (int i = 0; i < conns; ++i) words[i] = anystr(msglen, "byte"); static std::string *pw; pw = words;
    if (param("tune", 0)) { static const int steps[4] = {1, 3, 7, 1024}; sysconfig::buffer_io_step = steps[choose(4, "step")]; sysconfig::event_number = choose(2, "batch") ? 1 : 2048; }
    {
        reactor::tcp_server s(param("workers", 1)); reactor::tcp_client c(1);
        s.set_on_accept([](const Sp &p) { side(sv, nsv, p, true); });
        s.set_on_read_complete([](const Sp &p) { Side *d = side(sv, nsv, p, false); std::string x = p->rbuffer().get_string(); d->in += x; if (x.size()) say(d, p, x); });
        s.set_on_write_complete([](const Sp &p) { Side *d = side(sv, nsv, p, false); ++d->completes; if (closer == 1 && (int)d->in.size() == msglen && !p->wbuffer().size()) { d->ended = 1; safely_close(p); } });
        s.set_on_closed([](const Sp &p) { ++side(sv, nsv, p, false)->closed; });
        c.set_on_connect([](const Sp &p) { Side *d = side(cv, ncv, p, true); d->msg = pw[ncv - 1]; say(d, p, d->msg); });
        c.set_on_read_complete([](const Sp &p) { Side *d = side(cv, ncv, p, false); d->in += p->rbuffer().get_string(); if (closer == 0 && (int)d->in.size() == msglen) { d->ended = 1; safely_close(p); } });
        c.set_on_write_complete([](const Sp &p) { ++side(cv, ncv, p, false)->completes; });
        c.set_on_closed([](const Sp &p) { ++side(cv, ncv, p, false)->closed; });
        s.listen(60000, family::ipv4); s.run(); c.run(); vkw.preempt = param("preempt", 0);
        c.add("127.0.0.1", 60000, family::ipv4, conns); vkw_pause();
        vkw.preempt = 0; c.shutdown(); s.shutdown();
        VK_ASSERT(nsv == conns && ncv == conns, "every connection is announced once on both sides"); VK_ASSERT(!stray, "callbacks run after the connection was announced and never after it was closed");
        for (int i = 0; i < conns; ++i) {
            VK_ASSERT(same(cv[i].in, cv[i].msg), "what the client sent comes back unchanged"); VK_ASSERT((int)sv[i].in.size() == msglen, "every byte is delivered once");
            if (closer != 1) VK_ASSERT(sv[i].completes == sv[i].writes, "every write is reported complete exactly once"); VK_ASSERT(cv[i].completes == cv[i].writes, "every write is reported complete exactly once");
            VK_ASSERT(sv[i].closed == (closer == 0) && cv[i].closed == (closer == 1), "the end of a connection is announced on the other side");
        }
        if (conns == 2) VK_ASSERT(sv[0].in == words[0] || sv[0].in == words[1], "every byte is delivered once");
        vk_reach("done"); if (msglen > vkw.sock_cap) vk_reach("more than the socket takes");
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// both sides write at the same time, before they read
static std::string mutual_[2]; static std::string mutual_in[2]; static int mutual_done[2], mutual_closed[2];
ENTRY rx_mutual() {
    setup(0); int base = vkw_open_fds(); vkw.sigpipe_kills = 1; vkw.sock_cap = param("cap", 2); vkw.connect_imm = 0; for (auto &m : mutual_) m = anystr(param("full", 0) ? vkw.sock_cap + 1 : range(1, param("len", 4), "length"), "byte"); if (!param("full", 0)) vk_assume((int)mutual_[0].size() <= vkw.sock_cap || (int)mutual_[1].size() <= vkw.sock_cap);
    {
        reactor::tcp_server s(1); reactor::tcp_client c(1);
        s.set_on_accept([](const Sp &p) { p->wbuffer().put_string(mutual_[0]); async_write(p); }); c.set_on_connect([](const Sp &p) { p->wbuffer().put_string(mutual_[1]); async_write(p); });
        s.set_on_read_complete([](const Sp &p) { mutual_in[0] += p->rbuffer().get_string(); }); c.set_on_read_complete([](const Sp &p) { mutual_in[1] += p->rbuffer().get_string(); });
        s.set_on_write_complete([](const Sp &) { ++mutual_done[0]; }); c.set_on_write_complete([](const Sp &) { ++mutual_done[1]; }); s.set_on_closed([](const Sp &) { ++mutual_closed[0]; }); c.set_on_closed([](const Sp &) { ++mutual_closed[1]; });
        s.listen(60000, family::ipv4); s.run(); c.run(); vkw.preempt = param("preempt", 0); c.add("127.0.0.1", 60000, family::ipv4, 1); vkw_pause(); vkw.preempt = 0; c.shutdown(); s.shutdown();
        bool all = true; for (int i = 0; i < 2; ++i) { int n = (int)mutual_in[i].size(); VK_ASSERT(n <= (int)mutual_[1 - i].size() && same(mutual_in[i].data(), mutual_[1 - i].data(), n), "every byte is delivered once"); VK_ASSERT(mutual_closed[i] == 0, "the end of a connection is announced on the other side"); all &= n == (int)mutual_[1 - i].size() && mutual_done[1 - i] == 1; }
        if ((int)mutual_[0].size() > vkw.sock_cap && (int)mutual_[1].size() > vkw.sock_cap) { vk_reach("both more than the connection takes"); VK_ASSERT(all, "what both sides write at the same time arrives when both write more than the connection takes"); }
        else { VK_ASSERT(all, "what both sides write at the same time arrives"); vk_reach("done"); }
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// a listen that fails leaves the server as it was
ENTRY rx_listen() {
    setup(0); int base = vkw_open_fds(); int what = choose(4, "failure"), lf = what == 0 ? raw_listen(60000) : -1; bool good = choose(2, "another address first"); vkw.sigpipe_kills = 1;
    {
        reactor::tcp_server s(1); callbacks(s); s.set_on_accept(cb_open); int own = vkw_open_fds(), fd[2]; if (good) { s.listen(7002, family::ipv4, "127.0.0.1"); ++own; }
        if (what == 3) { vkw.faults = 1; vkw.fault_ops = VKF_SOCKET | VKF_BIND; }
        int extra = vkw_open_fds();
        int r = 0; try { if (what == 2) s.listen_unix("/none/such/path" + std::string(200, 'p')); else s.listen(what == 1 ? 70000 : 60000, family::ipv4, "127.0.0.1"); } catch (const std::exception &) { r = 1; }
        bool bound = what == 3 && vkw.faults; vkw.faults = 0; VK_ASSERT(r == !bound, "a server that cannot listen says so"); if (r) VK_ASSERT(vkw_open_fds() == extra, "failed attempts release their descriptors");
        s.listen(60001, family::ipv4, "127.0.0.1"); s.run(); vkw_pause(); fd[0] = raw_connect(60001); fd[1] = good ? raw_connect(7002) : -1; vkw_pause();
        VK_ASSERT(ncs == 1 + good, "every connection is announced"); { sockaddr_in o; memset(&o, 0, sizeof o); o.sin_family = AF_INET; o.sin_port = htons(60001); o.sin_addr.s_addr = htonl(0x7f000002); int x = ::socket(AF_INET, SOCK_STREAM, 0); VK_ASSERT(::connect(x, (sockaddr *)&o, sizeof o) < 0, "a server listens on the address it was given"); ::close(x); } vkw_pause(); for (int f : fd) if (f >= 0) ::close(f); vkw_pause(); s.shutdown(); sane(); if (r) vk_reach("refused");
    }
    if (lf >= 0) ::close(lf); VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// paths that are in use
ENTRY rx_listen_unix() {
    setup(0); int base = vkw_open_fds(), rm = choose(3, "remove"), use = choose(3, "use"), lf = use ? raw_listen(0, family::local) : -1, fd, own = 0; vkw.sigpipe_kills = 1; if (use == 2) { ::close(lf); lf = -1; }   // remove: not mentioned, not wanted, wanted; use: no such path, in use, left behind
    {
        reactor::tcp_server s(1); callbacks(s); s.set_on_accept(cb_open); bool refused = throws_sys([&] { if (rm == 0) s.listen_unix("/s"); else s.listen_unix("/s", rm == 2); }) != 0;
        VK_ASSERT(refused == (use && rm != 2), "a path that is in use is taken over exactly when that was asked for"); s.listen(60001, family::ipv4, "127.0.0.1"); s.run(); vkw_pause(); fd = raw_connect(0, family::local);
        vkw_pause(); VK_ASSERT(ncs == !refused, "every connection is announced"); if (use == 1) { int o = ::accept(lf, nullptr, nullptr); VK_ASSERT((o >= 0) == refused, "a path that is in use is taken over exactly when that was asked for"); if (o >= 0) ::close(o); } (void)own; vk_reach(refused ? "refused" : use ? "taken over" : "new"); ::close(fd); vkw_pause(); s.shutdown(); sane();
    }
    if (lf >= 0) ::close(lf); VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// what the application does to a connection that has ended already, when its descriptor may be another connection's
static Sp kept_; static int late_;
ENTRY rx_after() {
    setup(0); int base = vkw_open_fds(); vkw.sigpipe_kills = 1; late_ = choose(3, "late"); int how = choose(3, "how it ended"); bool reuse = choose(2, "another connection"); onRead = NONE;   // late: 0 write, 1 close, 2 both; how: 0 closed by its peer, 1 closed by the application, 2 reset
    {
        reactor::tcp_server s(1); static int app; app = how == 1; callbacks(s); s.set_on_accept([](const Sp &p) { cb_open(p); if (ncs == 1) kept_ = p; });
        s.set_on_read_complete([](const Sp &p) {
            Conn *c = find(p); if (!c || c->closed) { bad_order = true; return; } int n = p->rbuffer().size(); c->ngot += n;
            if (c == &cs[0] && app && n) { c->ended = 1; safely_close(p); } if (c == &cs[1] && n) { if (late_ != 1) { kept_->wbuffer().put_string("late"); async_write(kept_); } if (late_ != 0) safely_close(kept_); }
        });
        s.set_on_closed([](const Sp &p) { Conn *c = find(p); if (c) ++c->closed; });
        s.listen(60000, family::ipv4, "127.0.0.1"); s.run(); int fd[3] = {-1, -1, -1}; for (int i = 0; i < 2; ++i) { fd[i] = raw_connect(60000); vkw_pause(); }
        if (how == 1) ::write(fd[0], "x", 1); else if (how == 2) vkw_reset_conn(fd[0]), ::close(fd[0]); else ::close(fd[0]); vkw_pause();
        VK_ASSERT(cs[0].closed == (how != 1), "the end of a connection is announced exactly when the peer closed it");
        if (reuse) { fd[2] = raw_connect(60000); vkw_pause(); VK_ASSERT(ncs == 3, "every connection is announced"); }
        ::write(fd[1], "y", 1); vkw_pause();
        if (reuse) { char b[8]; VK_ASSERT(::read(fd[2], b, 8) == -1 && errno == EAGAIN, "another connection is not touched"); ::write(fd[2], "zz", 2); vkw_pause(); VK_ASSERT(cs[2].ngot == 2 && cs[2].closed == 0, "another connection is not touched"); vk_reach("reused"); }
        VK_ASSERT(cs[1].ngot == 1 && cs[1].closed == 0, "every byte the peer sent is delivered"); VK_ASSERT(!bad_order && cs[0].closed == (how != 1), "the end of a connection is announced at most once"); kept_.reset();
        s.shutdown(); for (int i = how == 1 ? 0 : 1; i < 3; ++i) if (fd[i] >= 0) ::close(fd[i]); vk_reach("done");
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
// many connections at once: each gets its own bytes, none is forgotten
struct One { void *sock; std::string in; int opened, completes, closed, port; char tag; }; static One ones_[64]; static int nones_; static One *one_(const Sp &p) { for (int i = 0; i < nones_; ++i) if (ones_[i].sock == p.get()) return &ones_[i]; return nullptr; }
ENTRY rx_many() {
    setup(0); vkw.sigpipe_kills = 1; vkw.order = 1 + choose(2, "order"); vkw.connect_imm = 0; vkw.epoll_order = -1; vkw.backlog_cap = 60; vkw.max_fds = 155; int n = param("many", 40), base = vkw_open_fds(); bool client = param("client", 0), together = choose(2, "together"); sysconfig::event_number = choose(2, "batch") ? 2048 : 3; sysconfig::buffer_io_step = 1024; int ended = choose(3, "ended by");   // 0 the peers, 1 the application, 2 shutdown
    static int ended_; ended_ = ended; static bool own_; own_ = client; static int fd[64], port[64];
    {
        std::unique_ptr<reactor::tcp_server> sp; std::unique_ptr<reactor::tcp_client> cp; if (client) cp.reset(new reactor::tcp_client(3)); else sp.reset(new reactor::tcp_server(3));
        auto op = [](const Sp &p) { if (one_(p) || nones_ == 64) { opened_twice = true; return; } One *o = &ones_[nones_++]; o->sock = p.get(); o->port = std::get<1>(own_ ? p->sockname() : p->peername()); };
        auto rd = [](const Sp &p) { One *o = one_(p); if (!o) { bad_order = true; return; } std::string x = p->rbuffer().get_string(); o->in += x; if (o->in.size() == 2) { p->wbuffer().put_string(o->in + "!"); async_write(p); } };
        auto wr = [](const Sp &p) { One *o = one_(p); if (!o) { bad_order = true; return; } ++o->completes; if (ended_ == 1) safely_close(p); };
        auto cl = [](const Sp &p) { One *o = one_(p); if (!o) { bad_order = true; return; } ++o->closed; };
        int lf = -1; if (client) { lf = raw_listen(60000); cp->set_on_connect(op); cp->set_on_read_complete(rd); cp->set_on_write_complete(wr); cp->set_on_closed(cl); cp->run(); if (together) cp->add("127.0.0.1", 60000, family::ipv4, n); }
        else { sp->set_on_accept(op); sp->set_on_read_complete(rd); sp->set_on_write_complete(wr); sp->set_on_closed(cl); sp->listen(60000, family::ipv4, "127.0.0.1"); sp->run(); }
        int own = vkw_open_fds();
        if (client) vkw_pause();
        for (int i = 0; i < n; ++i) { sockaddr_storage a; socklen_t l = sizeof a; if (client) { if (!together) { cp->add("127.0.0.1", 60000, family::ipv4); vkw_pause(); } fd[i] = ::accept(lf, (sockaddr *)&a, &l); ::fcntl(fd[i], F_SETFL, O_NONBLOCK); } else { fd[i] = raw_connect(60000); ::getsockname(fd[i], (sockaddr *)&a, &l); if (!together) vkw_pause(); } port[i] = raw_port(a); }
        vkw_pause(); VK_ASSERT(nones_ == n && !opened_twice, "every connection is announced");
        for (int k = 0; k < 2; ++k) { for (int i = 0; i < n; ++i) { char c = (char)(k ? 'a' + i % 26 : 'A' + i / 26); ::write(fd[i], &c, 1); } vkw_pause(); }
        for (int i = 0; i < n; ++i) {
            char b[16], e[3] = {(char)('A' + i / 26), (char)('a' + i % 26), '!'}; int r = (int)::read(fd[i], b, 16); VK_ASSERT(r == 3 && same(b, e, 3), "every written byte reaches the peer of its connection");
            int k = 0; while (k < n && ones_[k].port != port[i]) ++k; VK_ASSERT(k < n && ones_[k].in.size() == 2 && same(ones_[k].in.data(), e, 2) && ones_[k].completes == 1 && ones_[k].closed == 0, "every byte the peer sent is delivered");
            if (ended == 1) VK_ASSERT(::read(fd[i], b, 16) == 0, "closing a connection is visible to the peer");
        }
        if (ended != 2) { for (int i = 0; i < n; ++i) ::close(fd[i]); vkw_pause(); for (int i = 0; i < n; ++i) VK_ASSERT(ones_[i].closed == (ended == 0), "the end of a connection is announced exactly when the peer closed it"); }
        VK_ASSERT(!bad_order, "callbacks run after the connection was announced and never after it was closed"); if (ended != 2) VK_ASSERT(vkw_open_fds() == own, "finished connections release their descriptors, live ones keep theirs");
        if (client) { cp->shutdown(); ::close(lf); } else sp->shutdown();
        if (ended == 2) for (int i = 0; i < n; ++i) ::close(fd[i]); vk_reach("many");
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
