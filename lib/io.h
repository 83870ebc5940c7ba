// Capturing standard output, and files in the worker's scratch directory (its working directory).
#ifndef PBT_IO_H
#define PBT_IO_H

#include "pbt.h"

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

namespace io {

inline std::string slurp_fd(int fd)
{
    std::string s;
    char buf[65536];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, buf, sizeof(buf))) > 0) s.append(buf, n);
    return s;
}

// What f() prints on standard output
template <class F> std::string capture(F f)
{
    static int mem = memfd_create("stdout", 0);
    if (mem < 0 || ftruncate(mem, 0) != 0) pbt::engine_error("memfd");
    lseek(mem, 0, SEEK_SET);
    fflush(stdout);
    int saved = dup(1);
    dup2(mem, 1);
    f();
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    return slurp_fd(mem);
}

inline std::string read_file(const char * name)
{
    int fd = open(name, O_RDONLY);
    if (fd < 0) return "<missing>";
    std::string s = slurp_fd(fd);
    close(fd);
    return s;
}

inline void write_file(const char * name, const std::string & s)
{
    FILE * f = fopen(name, "wb");
    if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f) != 0) pbt::engine_error("cannot write scratch file");
}

template <class T> void append(std::string & s, T v) { s.append((const char *) &v, sizeof(v)); }

// First difference of two byte strings, for messages
inline size_t differs(const std::string & a, const std::string & b)
{
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return i;
    return n;
}

} // namespace io

#endif
