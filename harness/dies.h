// Runs f in a child process: true if it ends in an error (exception, abort).
#ifndef VERIF_DIES_H_
#define VERIF_DIES_H_
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
template <class F> bool dies(F f) {
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1); dup2(n, 2);
        struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
        signal(SIGABRT, SIG_DFL);
        try { f(); } catch (...) { _exit(1); }
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
#endif
