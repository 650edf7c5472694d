/* Preloaded into the tool when a case with an I/O fault schedule is replayed.
   VERIF_FAULTS=read-piece,interrupted-read,read-fails-at,write-piece,interrupted-write,write-fails-after */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static unsigned long long f[6], reads, writes, written;
static int init;
static void setup(void) {
    if (init) return;
    init = 1;
    const char *e = getenv("VERIF_FAULTS");
    for (int i = 0; i < 6; i++) f[i] = ~0ull;
    if (e) sscanf(e, "%llu,%llu,%llu,%llu,%llu,%llu", f, f + 1, f + 2, f + 3, f + 4, f + 5);
}
ssize_t read(int fd, void *b, size_t n) {
    ssize_t (*real)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    if (fd < 3) return real(fd, b, n);
    setup();
    if (reads++ == f[1]) { errno = EINTR; return -1; }
    if (f[2] != ~0ull) {
        unsigned long long p = lseek(fd, 0, SEEK_CUR);
        if (p >= f[2]) { errno = EIO; return -1; }
        if (n > f[2] - p) n = f[2] - p;
    }
    if (n > f[0]) n = f[0];
    return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    ssize_t (*real)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (fd < 3) return real(fd, b, n);
    setup();
    if (writes++ == f[4]) { errno = EINTR; return -1; }
    if (f[5] != ~0ull) {
        if (written >= f[5] && n > 0) { errno = ENOSPC; return -1; }
        if (n > f[5] - written) n = f[5] - written;
    }
    if (n > f[3]) n = f[3];
    ssize_t r = real(fd, b, n);
    if (r > 0) written += r;
    return r;
}
