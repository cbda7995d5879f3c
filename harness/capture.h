// Captures what the code under test writes through stdio (printf) and the standard streams.
#ifndef CAPTURE_H
#define CAPTURE_H
#include <cstdio>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
struct Capture { // redirects a file descriptor to a memory file
    int fd, saved, mem; FILE* f;
    explicit Capture(int fd = 1) : fd(fd), f(fd == 1 ? stdout : stderr) {
        fflush(f); std::cout.flush(); saved = dup(fd); mem = memfd_create("cap", 0);
        dup2(mem, fd);
    }
    std::string stop() {
        if (saved < 0) return "";
        fflush(f); std::cout.flush(); std::cerr.flush();
        dup2(saved, fd); close(saved); saved = -1;
        off_t n = lseek(mem, 0, SEEK_END); std::string s(size_t(n), 0);
        if (n && pread(mem, &s[0], size_t(n), 0) != n) s = "<cannot read the captured output>";
        close(mem); return s;
    }
    ~Capture() { stop(); }
};
struct StreamCapture { // redirects the buffer of a standard stream
    std::ostream& o; std::ostringstream s; std::streambuf* old;
    explicit StreamCapture(std::ostream& o) : o(o), old(o.rdbuf(s.rdbuf())) {}
    std::string stop() { if (old) { o.rdbuf(old); old = nullptr; } return s.str(); }
    ~StreamCapture() { stop(); }
};
#endif
