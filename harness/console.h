// A terminal of a given width as standard output.
#pragma once
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <string>
#include <sys/ioctl.h>
#include <termios.h>
#include <thread>
#include <unistd.h>
namespace console {
// Runs f with standard output on a terminal `cols` wide; standard input is something else.
template <class F> bool on(unsigned short cols, std::string& got, F f) {
    int m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0) return false; if (grantpt(m) || unlockpt(m)) { close(m); return false; }
    const char* n = ptsname(m); int s = n ? open(n, O_RDWR | O_NOCTTY) : -1; if (s < 0) { close(m); return false; }
    struct termios t; tcgetattr(s, &t); t.c_oflag &= ~(tcflag_t)OPOST; tcsetattr(s, TCSANOW, &t); struct winsize w = {}; w.ws_col = cols; w.ws_row = 24; ioctl(s, TIOCSWINSZ, &w);
    std::cout.flush(); int in = dup(0), out = dup(1), null = open("/dev/null", O_RDONLY); dup2(null, 0); dup2(s, 1); close(s); close(null);
    std::thread reader([&] { char b[4096]; ssize_t k; while ((k = read(m, b, sizeof b)) > 0) got.append(b, (std::size_t)k); });
    f(); std::cout.flush(); dup2(in, 0); dup2(out, 1); close(in); close(out); reader.join(); close(m); return true;
}
}
