/* Preloaded into rustc: what the derive macro's library asks of its surroundings is a function of OPGSIM_SEED.
   Randomness is controlled for the whole process, everything else for callers inside libopg_derive only. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static uint64_t seed, nth;
static uint64_t reads[4];
static char *(*real_getenv)(const char *);

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9e3779b97f4a7c15ull ^ b;
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27; x *= 0x94d049bb133111ebull;
    return x ^ x >> 31;
}

__attribute__((constructor)) static void start(void) {
    real_getenv = dlsym(RTLD_NEXT, "getenv");
    const char *s = real_getenv("OPGSIM_SEED");
    seed = s ? strtoull(s, 0, 10) : 1;
    /* move the heap */
    for (uint64_t i = 0; i < seed % 7; i++) {
        volatile char *p = malloc(1000 + mix(seed, i) % 100000);
        if (p) *p = 1;
    }
}

__attribute__((destructor)) static void stop(void) {
    const char *path = real_getenv ? real_getenv("OPGSIM_READS") : 0;
    if (!path) return;
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    char text[128];
    int n = snprintf(text, sizeof text, "%llu %llu %llu %llu\n", (unsigned long long)reads[0],
        (unsigned long long)reads[1], (unsigned long long)reads[2], (unsigned long long)reads[3]);
    if (write(fd, text, n) < 0) { }
    close(fd);
}

static int from_derive(void *caller) {
    Dl_info info;
    return dladdr(caller, &info) && info.dli_fname && strstr(info.dli_fname, "libopg_derive");
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    if (from_derive(__builtin_return_address(0))) __atomic_fetch_add(&reads[0], 1, __ATOMIC_SEQ_CST);
    uint64_t n = __atomic_fetch_add(&nth, 1, __ATOMIC_SEQ_CST);
    for (size_t i = 0; i < len; i++) ((unsigned char *)buf)[i] = mix(mix(seed, n), i) >> 24;
    return len;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!from_derive(__builtin_return_address(0))) return syscall(SYS_clock_gettime, id, ts);
    uint64_t n = __atomic_add_fetch(&reads[1], 1, __ATOMIC_SEQ_CST);
    ts->tv_sec = mix(seed, 77) % 4000000000u + n * (mix(seed, 78) % 100);
    ts->tv_nsec = mix(seed, n) % 1000000000u;
    return 0;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    if (!from_derive(__builtin_return_address(0))) return syscall(SYS_gettimeofday, tv, tz);
    uint64_t n = __atomic_add_fetch(&reads[1], 1, __ATOMIC_SEQ_CST);
    tv->tv_sec = mix(seed, 77) % 4000000000u + n;
    tv->tv_usec = mix(seed, n) % 1000000u;
    return 0;
}

time_t time(time_t *out) {
    time_t t;
    if (from_derive(__builtin_return_address(0))) {
        __atomic_add_fetch(&reads[1], 1, __ATOMIC_SEQ_CST);
        t = mix(seed, 77) % 4000000000u;
    } else {
        t = syscall(SYS_time, 0);
    }
    if (out) *out = t;
    return t;
}

pid_t getpid(void) {
    if (!from_derive(__builtin_return_address(0))) return syscall(SYS_getpid);
    __atomic_add_fetch(&reads[2], 1, __ATOMIC_SEQ_CST);
    return 2 + mix(seed, 79) % 4000000;
}

pid_t getppid(void) {
    if (!from_derive(__builtin_return_address(0))) return syscall(SYS_getppid);
    __atomic_add_fetch(&reads[2], 1, __ATOMIC_SEQ_CST);
    return 2 + mix(seed, 80) % 4000000;
}

pid_t gettid(void) {
    if (!from_derive(__builtin_return_address(0))) return syscall(SYS_gettid);
    __atomic_add_fetch(&reads[2], 1, __ATOMIC_SEQ_CST);
    return 2 + mix(seed, 81) % 4000000;
}

char *getenv(const char *name) {
    if (!real_getenv) real_getenv = dlsym(RTLD_NEXT, "getenv");
    /* what cargo sets belongs to the definition's crate, what configures std does not reach the output */
    if (!from_derive(__builtin_return_address(0)) || !strncmp(name, "CARGO", 5) || !strncmp(name, "RUST", 4))
        return real_getenv(name);
    __atomic_add_fetch(&reads[3], 1, __ATOMIC_SEQ_CST);
    static char *values[] = {"", "1", "0", "true", "x", "debug", "/tmp", "C"};
    uint64_t h = seed;
    for (const char *c = name; *c; c++) h = mix(h, *c);
    return h % 3 == 0 ? 0 : values[h / 3 % 8];
}
