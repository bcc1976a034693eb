#define _GNU_SOURCE
#include "vsched.h"
#include "vnet.h"
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
#include <arpa/inet.h>

int  (*vn_txfault)(int, size_t, size_t *) = NULL;
void (*vn_wire)(int, const void *, size_t, ssize_t, int) = NULL;

int __real_socket(int, int, int);
int __real_bind(int, const struct sockaddr *, socklen_t);
int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_setsockopt(int, int, int, const void *, socklen_t);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_recv(int, void *, size_t, int);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_usleep(useconds_t);

static bool issock(int fd) {
    struct stat st;
    return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
}
static socklen_t name(struct sockaddr_un *u, int port) {
    memset(u, 0, sizeof(*u));
    u->sun_family = AF_UNIX;
    return (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + (size_t)sprintf(u->sun_path + 1, "vn-%d-%d", (int)getpid(), port));
}
int __wrap_socket(int d, int t, int p) { return d == AF_INET || d == AF_INET6 ? __real_socket(AF_UNIX, t, 0) : __real_socket(d, t, p); }
int __wrap_setsockopt(int s, int l, int n, const void *v, socklen_t m) { return 0; }
int __wrap_bind(int s, const struct sockaddr *a, socklen_t l) {
    struct sockaddr_un u;
    if (a->sa_family != AF_INET) return __real_bind(s, a, l);
    l = name(&u, ntohs(((const struct sockaddr_in *)a)->sin_port));
    return __real_bind(s, (struct sockaddr *)&u, l);
}
static int conn(int s, int port) {
    struct sockaddr_un u;
    socklen_t l = name(&u, port);
    int fl = fcntl(s, F_GETFL), r, k;
    fcntl(s, F_SETFL, fl | O_NONBLOCK);
    for (k = 0; k < 10000; k++) {
        r = __real_connect(s, (struct sockaddr *)&u, l);
        if (r == 0 || errno != EAGAIN) break;
        __wrap_usleep(1000);
    }
    k = errno;
    fcntl(s, F_SETFL, fl);
    errno = k;
    return r;
}
int __wrap_connect(int s, const struct sockaddr *a, socklen_t l) {
    if (a->sa_family != AF_INET) return __real_connect(s, a, l);
    vs_yield();
    return conn(s, ntohs(((const struct sockaddr_in *)a)->sin_port));
}
static struct hostent *loop(void) {
    static struct in_addr ad;
    static char *al[2] = {(char *)&ad, NULL};
    static char *none[1] = {NULL};
    static struct hostent h = {"localhost", none, AF_INET, 4, al};
    ad.s_addr = htonl(INADDR_LOOPBACK);
    return &h;
}
struct hostent *__wrap_gethostbyname(const char *n) { return loop(); }
struct hostent *__wrap_gethostbyname2(const char *n, int f) { return loop(); }

static ssize_t tx(int fd, const void *b, size_t n, int fl) {
    size_t allow = n;
    ssize_t r;
    int e = 0;
    bool block = !(fl & MSG_DONTWAIT) && !(fcntl(fd, F_GETFL) & O_NONBLOCK);
    vs_yield();
    if (vn_txfault && (e = vn_txfault(fd, n, &allow))) {
        r = -1;
    } else while (true) {
        r = __real_send(fd, b, allow, fl | MSG_DONTWAIT | MSG_NOSIGNAL);
        e = r < 0 ? errno : 0;
        if (r >= 0 || !block || (e != EAGAIN && e != EWOULDBLOCK)) break;
        fd_set w;
        FD_ZERO(&w); FD_SET(fd, &w);
        __wrap_select(fd + 1, NULL, &w, NULL, NULL);
        __wrap_usleep(500);        // it may say there is room when there is not enough
    }
    if (vn_wire) vn_wire(fd, b, n, r, e);
    errno = e;
    return r;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) {
    return vs_enabled && vs_self() >= 0 ? tx(fd, b, n, fl) : __real_send(fd, b, n, fl);
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    return vs_enabled && vs_self() >= 0 && a == NULL ? tx(fd, b, n, fl) : __real_sendto(fd, b, n, fl, a, l);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    return vs_enabled && vs_self() >= 0 && issock(fd) ? tx(fd, b, n, 0) : __real_write(fd, b, n);
}
static ssize_t txv(int fd, const struct iovec *v, int c, int fl) {
    size_t n = 0;
    int k;
    for (k = 0; k < c; k++) n += v[k].iov_len;
    char *all = malloc(n + 1);
    for (k = 0, n = 0; k < c; k++) { memcpy(all + n, v[k].iov_base, v[k].iov_len); n += v[k].iov_len; }
    ssize_t r = tx(fd, all, n, fl);
    k = errno;
    free(all);
    errno = k;
    return r;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
    return vs_enabled && vs_self() >= 0 && issock(fd) ? txv(fd, v, c, 0) : __real_writev(fd, v, c);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) {
    return vs_enabled && vs_self() >= 0 && m->msg_name == NULL ? txv(fd, m->msg_iov, (int)m->msg_iovlen, fl) : __real_sendmsg(fd, m, fl);
}

// ---- the peer's side
int vn_port(int port) {
    int s = __real_socket(AF_UNIX, SOCK_STREAM, 0);
    if (conn(s, port) < 0) { close(s); return -1; }
    fcntl(s, F_SETFL, O_NONBLOCK);
    return s;
}
int vn_listen(int port) {
    struct sockaddr_un u;
    int s = __real_socket(AF_UNIX, SOCK_STREAM, 0);
    socklen_t l = name(&u, port);
    if (__real_bind(s, (struct sockaddr *)&u, l) < 0 || listen(s, 8) < 0) { perror("vn_listen"); _exit(46); }
    fcntl(s, F_SETFL, O_NONBLOCK);
    return s;
}
int vn_accept(int sd) {
    int s = __real_accept(sd, NULL, NULL);
    if (s >= 0) fcntl(s, F_SETFL, O_NONBLOCK);
    return s;
}
ssize_t vn_put(int fd, const void *b, size_t n) {     // all of it
    size_t k = 0;
    while (k < n) {
        ssize_t r = __real_send(fd, (const char *)b + k, n - k, MSG_DONTWAIT | MSG_NOSIGNAL);
        if (r > 0) k += (size_t)r;
        else if (errno == EAGAIN) __wrap_usleep(500);
        else return -1;
    }
    return (ssize_t)n;
}
ssize_t vn_some(int fd, const void *b, size_t n) {     // what there is room for
    ssize_t r = __real_send(fd, b, n, MSG_DONTWAIT | MSG_NOSIGNAL);
    return r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK) ? 0 : r;
}
ssize_t vn_get(int fd, void *b, size_t n) { return __real_recv(fd, b, n, MSG_DONTWAIT); }
