// Client side of the remote protocol, written from its description (remote-processor/README.md):
// sync word, size, message id, length prefixed strings, additive checksum.
#pragma once
#include <arpa/inet.h>
#include <cstdint>
#include <cstring>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>

inline int freePort(int salt)
{
    for (int k = 0; k < 500; k++) {
        int port = 12000 + int((unsigned(getpid()) * 37u + unsigned(salt) * 101u + unsigned(k) * 7u) % 18000u);
        int fd = socket(AF_INET6, SOCK_STREAM, 0);
        if (fd < 0) fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in6 a;
        memset(&a, 0, sizeof a);
        a.sin6_family = AF_INET6;
        a.sin6_port = htons(uint16_t(port));
        int r = bind(fd, (sockaddr *)&a, sizeof a);
        close(fd);
        if (r == 0) return port;
    }
    return 5000;
}
inline void put16(std::string &s, unsigned v) { s += char(v & 255), s += char(v >> 8 & 255); }
inline void put32(std::string &s, uint32_t v)
{
    for (int i = 0; i < 4; i++) s += char(v >> (8 * i) & 255);
}
inline uint32_t get32(const std::string &s, size_t at)
{
    uint32_t v = 0;
    for (int i = 3; i >= 0; i--) v = v << 8 | uint8_t(s[at + size_t(i)]);
    return v;
}
inline std::string netStrings(const std::vector<std::string> &v)
{
    std::string d;
    for (auto &x : v) put32(d, uint32_t(x.size())), d += x;
    return d;
}
inline std::string netFrame(uint8_t id, const std::string &data)
{
    std::string m;
    put16(m, 0xBABE);
    put32(m, uint32_t(data.size() + 1));
    m += char(id);
    m += data;
    uint8_t sum = id;
    for (char c : data) sum = uint8_t(sum + uint8_t(c));
    m += char(sum);
    return m;
}
inline std::string netRequest(const std::string &cmd, const std::vector<std::string> &args)
{
    std::vector<std::string> v{cmd};
    v.insert(v.end(), args.begin(), args.end());
    return netFrame(0, netStrings(v));
}
struct NetAnswer
{
    bool ok = false;
    std::string text;
};
struct NetClient
{
    int fd = -1;
    int timeoutMs = 20000;
    std::string buf;
    bool eof = false, reset = false;
    ~NetClient() { close(); }
    bool connected() const { return fd >= 0; }
    void close()
    {
        if (fd >= 0) ::close(fd);
        fd = -1;
        buf.clear();
        eof = reset = false;
    }
    bool open(int port, std::string &why)
    {
        close();
        for (int attempt = 0;; attempt++) {
            fd = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a;
            memset(&a, 0, sizeof a);
            a.sin_family = AF_INET;
            a.sin_port = htons(uint16_t(port));
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (connect(fd, (sockaddr *)&a, sizeof a) == 0) break;
            why = strerror(errno);
            int e = errno;
            close();
            if ((e != EADDRNOTAVAIL && e != EINTR) || attempt > 50) return false;
            usleep(20000);
        }
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        // no TIME_WAIT left behind: thousands of connections are made
        linger l{1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        return true;
    }
    bool send(const std::string &s)
    {
        size_t at = 0;
        while (at < s.size()) {
            ssize_t n = ::send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if (n <= 0) return false;
            at += size_t(n);
        }
        return true;
    }
    void halfClose() { shutdown(fd, SHUT_WR); }
    // reads more bytes; false at end of stream, reset or time out
    bool more(std::string &why)
    {
        pollfd p{fd, POLLIN, 0};
        int r = poll(&p, 1, timeoutMs);
        if (r <= 0) {
            why = "timed out";
            return false;
        }
        char b[65536];
        ssize_t n = recv(fd, b, sizeof b, 0);
        if (n > 0) {
            buf.append(b, size_t(n));
            return true;
        }
        if (n == 0)
            eof = true, why = "connection closed";
        else
            reset = true, why = strerror(errno);
        return false;
    }
    bool answer(NetAnswer &a, std::string &why)
    {
        for (;;) {
            if (buf.size() >= 6) {
                if (uint8_t(buf[0]) != 0xBE || uint8_t(buf[1]) != 0xBA) {
                    why = "answer without sync word";
                    return false;
                }
                size_t len = get32(buf, 2);
                if (len < 1 || len > (64u << 20)) {
                    why = "answer of impossible size";
                    return false;
                }
                if (buf.size() >= 6 + len + 1) {
                    uint8_t id = uint8_t(buf[6]), sum = 0;
                    for (size_t i = 0; i < len; i++) sum = uint8_t(sum + uint8_t(buf[6 + i]));
                    std::string data = buf.substr(7, len - 1);
                    bool good = sum == uint8_t(buf[6 + len]) && (id == 1 || id == 2) && data.size() >= 4 &&
                                get32(data, 0) == data.size() - 4;
                    buf.erase(0, 7 + len);
                    if (!good) {
                        why = "malformed answer";
                        return false;
                    }
                    a.ok = id == 1;
                    a.text = data.substr(4);
                    return true;
                }
            }
            if (!more(why)) return false;
        }
    }
};
