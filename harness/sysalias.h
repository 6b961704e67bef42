/* The calls the library may use to read, write and accept, all seen alike. Include after defining
 * on_read(fd, n, real(n)), on_write(fd, n, real(n)) and on_accept(fd, real()). */
#pragma once
#include <sys/uio.h>
#include <vector>
static std::vector<struct iovec> iov_cut(const struct iovec* v, int c, size_t n) {
    std::vector<struct iovec> o; for (int i = 0; i < c && n; ++i) { o.push_back(v[i]); if (o.back().iov_len > n) o.back().iov_len = n; n -= o.back().iov_len; } return o;
}
static size_t iov_sum(const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len; return n; }
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*); ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_write(int, const void*, size_t); ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t); ssize_t __real_writev(int, const struct iovec*, int);
int __real_accept(int, struct sockaddr*, socklen_t*); int __real_accept4(int, struct sockaddr*, socklen_t*, int);
ssize_t __wrap_read(int fd, void* b, size_t n) { return on_read(fd, n, [&](size_t k) { return __real_read(fd, b, k); }); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { return on_read(fd, n, [&](size_t k) { return __real_recv(fd, b, k, f); }); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, struct sockaddr* a, socklen_t* l) { return on_read(fd, n, [&](size_t k) { return __real_recvfrom(fd, b, k, f, a, l); }); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { return on_read(fd, iov_sum(v, c), [&](size_t k) { auto o = iov_cut(v, c, k); return __real_readv(fd, o.data(), (int)o.size()); }); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return on_write(fd, n, [&](size_t k) { return __real_write(fd, b, k); }); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { return on_write(fd, n, [&](size_t k) { return __real_send(fd, b, k, f); }); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l) { return on_write(fd, n, [&](size_t k) { return __real_sendto(fd, b, k, f, a, l); }); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { return on_write(fd, iov_sum(v, c), [&](size_t k) { auto o = iov_cut(v, c, k); return __real_writev(fd, o.data(), (int)o.size()); }); }
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) { return on_accept(fd, [&] { return __real_accept(fd, a, l); }); }
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int f) { return on_accept(fd, [&] { return __real_accept4(fd, a, l, f); }); }
}
