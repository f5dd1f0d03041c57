// Preloaded into fresh processes that generate a parser: another environment and another time, as chosen by VH_ODD.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static unsigned long seed;

static char *real(const char *n) {
    size_t k = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
    return NULL;
}
static unsigned long number(void) {
    if (!seed) { char *s = real("VH_ODD"); seed = s ? strtoul(s, NULL, 10) : 0; }
    return seed;
}
// what the process, its libraries and the place for temporary files need stays
static int own(const char *n) {
    static const char *const keep[] = { "VH_", "RUST_", "LD_", "MALLOC_", "GLIBC_", "GCONV_", "TMP", "TEMP", "PATH", "HOME", "XDG_", NULL };
    for (int i = 0; keep[i]; i++)
        if (!strncmp(n, keep[i], strlen(keep[i]))) return 1;
    return 0;
}
char *getenv(const char *n) {
    char *v = real(n);
    unsigned long s = number();
    if (v || !s || own(n)) return v;
    unsigned long h = s;
    for (const char *c = n; *c; c++) h = h * 1099511628211UL + (unsigned char)*c;
    h ^= h >> 29;
    switch (h % 5) {
        case 0: return NULL;
        case 1: return "1";
        case 2: return "";
        case 3: return "some text";
        default: {
            static __thread char b[32];
            snprintf(b, sizeof b, "%lu", h >> 24);
            return b;
        }
    }
}
char *secure_getenv(const char *n) { return getenv(n); }
static long off(void) { return number() ? (long)(number() % 3000000000UL) - 1000000000L : 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0) t->tv_sec += c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? off() : (off() & 0xfffffff);
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
