// Runs the remote-process executable and collects what it prints. Its socket calls go through
// clientshim.so, which splits its reads and writes and injects failures as asked.
#pragma once
#include <cerrno>
#include <csignal>
#include <poll.h>
#include <spawn.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern std::string g_pluginDir;
extern char **environ;

struct ClientRun
{
    int status = 0; // as given by waitpid
    bool hung = false;
    std::string out, err;
    bool crashed() const { return !hung && WIFSIGNALED(status); }
    int code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -1; }
};
struct Client
{
    pid_t pid = -1;
    int fo = -1, fe = -1;
    ~Client() { stop(); }
    void stop()
    {
        if (pid > 0) {
            kill(pid, SIGKILL);
            int st;
            waitpid(pid, &st, 0);
        }
        if (fo >= 0) ::close(fo);
        if (fe >= 0) ::close(fe);
        pid = fo = fe = -1;
    }
    bool start(const std::vector<std::string> &args, const std::vector<std::string> &env = {})
    {
        stop();
        fo = memfd_create("out", MFD_CLOEXEC), fe = memfd_create("err", MFD_CLOEXEC);
        std::string exe = g_pluginDir + "/pf/bin/remote-process";
        std::vector<char *> av{const_cast<char *>(exe.c_str())}, ev;
        for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
        av.push_back(nullptr);
        std::string pre = "LD_PRELOAD=" + g_pluginDir + "/clientshim.so";
        if (!env.empty()) ev.push_back(const_cast<char *>(pre.c_str()));
        for (auto &e : env) ev.push_back(const_cast<char *>(e.c_str()));
        ev.push_back(nullptr);
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
        posix_spawn_file_actions_adddup2(&fa, fo, 1);
        posix_spawn_file_actions_adddup2(&fa, fe, 2);
        int r = posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), ev.data());
        posix_spawn_file_actions_destroy(&fa);
        if (r) pid = -1;
        return r == 0;
    }
    static std::string all(int fd)
    {
        std::string s;
        off_t n = lseek(fd, 0, SEEK_END);
        s.resize(size_t(n));
        if (n && pread(fd, &s[0], size_t(n), 0) != n) s = "(unreadable)";
        return s;
    }
    ClientRun wait(int ms = 20000)
    {
        ClientRun r;
        int pfd = int(syscall(SYS_pidfd_open, pid, 0));
        if (pfd >= 0) {
            pollfd p{pfd, POLLIN, 0};
            if (poll(&p, 1, ms) != 1) r.hung = true;
            ::close(pfd);
        } else {
            int left = ms;
            siginfo_t si;
            for (;;) {
                si.si_pid = 0;
                if (waitid(P_PID, id_t(pid), &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid) break;
                usleep(500);
                if (--left <= 0) {
                    r.hung = true;
                    break;
                }
            }
        }
        if (r.hung) kill(pid, SIGKILL);
        waitpid(pid, &r.status, 0);
        pid = -1;
        r.out = all(fo), r.err = all(fe);
        stop();
        return r;
    }
};
