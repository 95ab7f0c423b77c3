#pragma once
#include "h.h"
#include "cppev/nio.h"
#include "cppev/event_loop.h"
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <pthread.h>
inline void raw_pair(int fd[2], const char *name = "/raw") {   // connected blocking stream sockets
    sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, name);
    int l = ::socket(AF_UNIX, SOCK_STREAM, 0); ::bind(l, (sockaddr *)&a, sizeof a); ::listen(l, 8);
    fd[0] = ::socket(AF_UNIX, SOCK_STREAM, 0); ::connect(fd[0], (sockaddr *)&a, sizeof a);
    fd[1] = ::accept(l, nullptr, nullptr); ::close(l); ::unlink(name);
}
inline void calm() { vkw.preempt = vkw.eintr = vkw.shorts = vkw.faults = vkw.spurious = 0; }
struct Thr { pthread_t t; void start(void *(*f)(void *), void *a) { pthread_create(&t, nullptr, f, a); } void join() { pthread_join(t, nullptr); } };
