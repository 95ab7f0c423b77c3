// Interface between harnesses, the environment model and the symbolic engine
// (or, natively, the replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
uint64_t vk_val(unsigned bits, const char *name);     // fresh symbolic value
uint64_t vk_choose(unsigned n, const char *name);     // symbolic choice 0..n-1, case-split
void vk_assume(bool c);
void vk_assert_(bool c, const char *label);
[[noreturn]] void vk_fail(const char *label);
void vk_reach(const char *label);
[[noreturn]] void vk_exit();
uint64_t vk_conc(uint64_t v);                         // case-split a value
void vk_note(const char *name, uint64_t v);
uint64_t vk_param(const char *name, uint64_t dflt);
int vk_thread_create(void (*fn)(void *), void *arg);
void vk_thread_switch(int tid);
int vk_thread_self();
void vk_hb_release(uint64_t key);
void vk_hb_acquire(uint64_t key);
void vk_race(bool on);
uint64_t vk_heap_blocks(uint64_t since);              // ~0: current mark; else live heap blocks allocated since the mark
int vk_is_engine();
int vk_is_sym(uint64_t v);
void *vk_malloc(size_t n);                            // zeroed, never freed, not counted by vk_heap_blocks
uint64_t vk_next_bkt(uint64_t n);
}
#define VK_ASSERT(c, label) vk_assert_((c), (label))

// ---- the modelled world: budgets of nondeterministic events and inspection hooks
struct VkWorld {
    int preempt;          // scheduler preemptions left
    int eintr;            // EINTR returns left
    int shorts;           // short read/write counts left
    int faults;           // failing system calls left
    uint64_t fault_ops;   // which operations may fail (bit VKF_*)
    int spurious;         // spurious condition wakeups left
    int pipe_cap, sock_cap, backlog;
    int connect_fail;     // asynchronous connect failures left
    int connect_imm;      // allow immediate success of nonblocking connect
    int max_fds;
    int epoll_order;      // permute ready events (rotations); -1: in turns, one order only
    int park_boot;        // threads created by static constructors never run after start-up
    int preempt_ops;      // bit mask VKP_*: where preemption may occur
    void (*on_quiescent)();   // called (in the last scheduled thread) when nothing can run; null = deadlock violation
    void (*child_main)();     // behaviour of a forked child process (parent view)
    int fork_child;           // fork() continues as the child; 2: one of the calls does
    void (*on_exec)(const char *file, char **argv, char **envp);
    void (*on_exit)(int status);
    int (*on_kill)(int pid, int sig);  // returns 0 or errno
    int64_t now;          // ns
    int64_t late_max;     // sleeps may overrun by up to this (symbolic)
    int bad_close;        // close() of an fd that is not open
    int bad_unmap;
    int nkills, last_kill_sig, last_kill_pid;
    int sys_count;
    int no_timeout_preempt;
    int strict_misuse;    // misuse of synchronisation objects is a violation (default 1)
    int reaped;
    int lost_writes;
    int sigpipe_kills;
    int exec_fail;
    int fd_leak_base;
    int fault_any;        // a failing call reports any error number
    int order;            // 0: every order of running and waking; 1 first, 2 last, 3 in turns (for entries with many threads)
    int tz_off;           // seconds of the local time zone (0: UTC)
    int shm_cap;          // room of shared memory objects to grow
    int last_errno;       // error number of the last failing call
    const struct VkLib *libs; int nlibs, dl_mode;   // the dynamic libraries that exist
    int backlog_cap;      // connections waiting for accept (0: 8, at most 64)
};
struct VkSym { const char *name; void *addr; };
struct VkLib { const char *file; const VkSym *syms; };
extern "C" VkWorld vkw;
enum { VKF_SOCKET = 1, VKF_PIPE = 2, VKF_FCNTL = 4, VKF_OPEN = 8, VKF_MKFIFO = 16, VKF_BIND = 32, VKF_LISTEN = 64, VKF_CONNECT = 128, VKF_ACCEPT = 256, VKF_READ = 512,
       VKF_WRITE = 1024, VKF_EPCREATE = 2048, VKF_EPCTL = 4096, VKF_EPWAIT = 8192, VKF_SOCKOPT = 1 << 14, VKF_SHM = 1 << 15, VKF_FTRUNC = 1 << 16, VKF_MMAP = 1 << 17,
       VKF_SEMOPEN = 1 << 18, VKF_SEM = 1 << 19, VKF_FORK = 1 << 20, VKF_SENDTO = 1 << 21, VKF_RECVFROM = 1 << 22, VKF_WAITPID = 1 << 23, VKF_PTCREATE = 1 << 24, VKF_PTINIT = 1 << 25, VKF_SIG = 1 << 26, VKF_NAME = 1 << 27, VKF_KILL = 1 << 28, VKF_TIME = 1 << 29, VKF_DL = 1 << 30, VKF_PTLOCK = 1u << 31 };
enum { VKP_LOCK = 1, VKP_COND = 2, VKP_IO = 4, VKP_EPOLL = 8, VKP_ATOMIC = 16, VKP_SEM = 32, VKP_THREAD = 64, VKP_UNLOCK = 128, VKP_YIELD = 256, VKP_ALL = 511, VKP_EXIT = 512 };

extern "C" {
int vkw_open_fds();                 // open descriptors of the current process
int vkw_fd_open(int fd);
int vkw_fd_flags(int fd);
int vkw_total_files();              // open file descriptions system wide
int vkw_interest(int epfd, int fd); // epoll interest mask, -1 if absent
int vkw_interest_count(int epfd);
int vkw_fd_id(int fd);              // identity of the open file description
int vkw_console(int fd, char *out, int cap);   // bytes written to descriptor 1/2
int vkw_threads_alive();            // threads that have not exited
int vkw_thread_done(unsigned long pt);
int vkw_thread_blocked(int tid);
void vkw_yield();                   // explicit scheduling point (free choice among all runnable threads)
void vkw_pause();                   // block until nothing else can run (lets all other threads run to quiescence)
void vkw_block_until(bool (*pred)(void *), void *arg);
void vkw_pipe_fill(int fd, int n);
int vkw_pipe_len(int fd);           // bytes queued for reading on fd
int vkw_pipe_room(int fd);
int vkw_pipe_id(int fd);            // identity of the pipe behind fd, in order of creation; -1 if none
int vkw_cloexec(int fd);
int vkw_proc();                     // number of the calling process (0: the first)
int vkw_mutex_owner(void *m);       // tid+1 of holder, 0 if free
int vkw_rw_readers(void *rw);
int vkw_rw_writer(void *rw);
int vkw_spin_owner(void *s);
int vkw_sem_value(const char *name);
int vkw_shm_exists(const char *name);
int vkw_shm_size(const char *name);
char *vkw_shm_data(const char *name);
int vkw_maps();
int vkw_sems_open();
uint64_t vkw_sigmask();
int vkw_lib_refs(int i);              // how often library i is open
void vkw_new_proc();                // continue this thread as a different process (own descriptor table)
int vkw_self_tid();
void vkw_child_exit(int status);
int vkw_child_reaped();
void vkw_reset_conn(int fd);        // peer resets the connection
void vkw_fail_conn(int fd, int err);   // the connection of the other end fails (timed out, host unreachable)
void vkw_cond_check(void *c);
int vkw_cond_waiters(void *c);
void vkw_set_pending(int sig);
}
namespace vk {
inline uint8_t u8(const char *n) { return (uint8_t)vk_val(8, n); }
inline uint32_t u32(const char *n) { return (uint32_t)vk_val(32, n); }
inline int choose(int n, const char *name) { return n <= 1 ? 0 : (int)vk_choose(n, name); }
inline int range(int lo, int hi, const char *name) { return lo + choose(hi - lo + 1, name); }
inline int param(const char *n, int d) { return (int)vk_param(n, (uint64_t)d); }
}
