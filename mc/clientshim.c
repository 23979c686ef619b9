/* Preloaded into remote-process: limits the sizes of its socket reads and writes to those listed in
 * CS_IN and CS_OUT (the last one repeats, 0: no limit), and makes the CS_FAILth socket call (reads and
 * writes counted together, from 1) fail with error CS_ERRNO. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/uio.h>
static long calls;
static size_t sizes[2][16];
static int n[2], at[2], ready;
static size_t left[2];
static void load(int d, const char *name)
{
    char *v = getenv(name);
    while (v && *v && n[d] < 16) {
        sizes[d][n[d]++] = strtoul(v, &v, 10);
        if (*v == ',') v++;
    }
}
static size_t allow(int d)
{
    if (!ready) load(0, "CS_IN"), load(1, "CS_OUT"), ready = 1;
    if (!n[d]) return (size_t)-1;
    if (!left[d]) {
        int i = at[d] < n[d] ? at[d] : n[d] - 1;
        at[d]++;
        left[d] = sizes[d][i] ? sizes[d][i] : (size_t)-1;
    }
    return left[d];
}
static void used(int d, ssize_t k)
{
    if (n[d] && k > 0) left[d] -= (size_t)k < left[d] ? (size_t)k : left[d];
}
static int fail(void)
{
    char *f = getenv("CS_FAIL"), *e = getenv("CS_ERRNO");
    calls++;
    if (!f || !e || atol(f) != calls) return 0;
    errno = atoi(e);
    return 1;
}
static int cut(const struct msghdr *o, struct msghdr *m, struct iovec *v, size_t k)
{
    size_t i = 0;
    *m = *o;
    for (; i < o->msg_iovlen && i < 64 && k > 0; i++) {
        v[i] = o->msg_iov[i];
        if (v[i].iov_len > k) v[i].iov_len = k;
        k -= v[i].iov_len;
    }
    m->msg_iov = v;
    m->msg_iovlen = i;
    return 0;
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    ssize_t (*f)(int, struct msghdr *, int) = dlsym(RTLD_NEXT, "recvmsg");
    struct msghdr c;
    struct iovec v[64];
    ssize_t r;
    if (fail()) return -1;
    cut(m, &c, v, allow(0));
    r = f(fd, &c, flags);
    m->msg_flags = c.msg_flags;
    used(0, r);
    return r;
}
ssize_t recv(int fd, void *b, size_t len, int flags)
{
    ssize_t (*f)(int, void *, size_t, int) = dlsym(RTLD_NEXT, "recv");
    size_t a = allow(0);
    ssize_t r;
    if (fail()) return -1;
    r = f(fd, b, len < a ? len : a, flags);
    used(0, r);
    return r;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    ssize_t (*f)(int, const struct msghdr *, int) = dlsym(RTLD_NEXT, "sendmsg");
    struct msghdr c;
    struct iovec v[64];
    ssize_t r;
    if (fail()) return -1;
    cut(m, &c, v, allow(1));
    r = f(fd, &c, flags);
    used(1, r);
    return r;
}
ssize_t send(int fd, const void *b, size_t len, int flags)
{
    ssize_t (*f)(int, const void *, size_t, int) = dlsym(RTLD_NEXT, "send");
    size_t a = allow(1);
    ssize_t r;
    if (fail()) return -1;
    r = f(fd, b, len < a ? len : a, flags);
    used(1, r);
    return r;
}
