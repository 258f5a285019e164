#define _GNU_SOURCE
#include "drv.h"
#include <sys/syscall.h>
#include <sys/uio.h>
/* the clock is the driver's */
static long long now_ms = 1700000000000LL;
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = now_ms / 1000; tv->tv_usec = now_ms % 1000 * 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = now_ms / 1000; ts->tv_nsec = now_ms % 1000 * 1000000; return 0; }
time_t time(time_t *t) { time_t r = now_ms / 1000; if (t) *t = r; return r; }

/* the installation prefix is a directory of the scenario's; while `busy', another process writes to a log
 * after every write of the program's to it */
static char dir[400], logfd[1024];
static int busy, zone;
#if defined(S5_PATH_LOG_FILE_MAIN) && defined(S5_PATH_LOG_FILE_ACCESS)
static const char *paths[2] = { S5_PATH_LOG_FILE_MAIN, S5_PATH_LOG_FILE_ACCESS };
#else
static const char *paths[2] = { "/log_main", "/log_access" };
#endif
#define names(k) (strrchr(paths[k], '/') + 1)
static char *was[2];
static int wasn[2];

static int raw_open(const char *p, int fl, int mode) { return syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
static int do_open(const char *p, int fl, int mode) {
    char m[800];
    if (!strncmp(p, S5_PATH, strlen(S5_PATH))) {
        snprintf(m, sizeof m, "%s/%s", dir, strrchr(p, '/') + 1);
        int fd = raw_open(m, fl, mode);
        if (fd >= 0 && fd < 1024) logfd[fd] = !strcmp(strrchr(p, '/') + 1, names(0)) ? 1 : 2;
        return fd;
    }
    return raw_open(p, fl, mode);
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return p[0] == '/' ? do_open(p, fl, m) : syscall(SYS_openat, d, p, fl, m); }
int mkdir(const char *p, mode_t m) { return strncmp(p, S5_PATH, strlen(S5_PATH)) ? syscall(SYS_mkdirat, AT_FDCWD, p, m) : 0; }
int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (fd >= 0 && fd < 1024) logfd[fd] = 0; return syscall(SYS_close, fd); }

static void other(int k, const char *s) {
    char m[800];
    snprintf(m, sizeof m, "%s/%s", dir, names(k));
    int fd = raw_open(m, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0 || syscall(SYS_write, fd, s, strlen(s)) != strlen(s)) _exit(3);
    syscall(SYS_close, fd);
}
static void interfere(int fd) { if (busy && fd >= 0 && fd < 1024 && logfd[fd]) other(logfd[fd] - 1, "~"); }
ssize_t write(int fd, const void *b, size_t n) { ssize_t r = syscall(SYS_write, fd, b, n); interfere(fd); return r; }
ssize_t writev(int fd, const struct iovec *v, int n) { ssize_t r = syscall(SYS_writev, fd, v, n); interfere(fd); return r; }
int vdprintf(int fd, const char *f, va_list ap) { char *s; int n = vasprintf(&s, f, ap); if (n >= 0) { n = write(fd, s, n); free(s); } return n; }
int dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int n = vdprintf(fd, f, ap); va_end(ap); return n; }

/* streams on the logs write through the same door */
static ssize_t ck_read(void *c, char *b, size_t n) { return syscall(SYS_read, (int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = syscall(SYS_lseek, (int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return close((int)(long)c); }
static FILE *stream(const char *p, const char *mode) {
    int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    fl |= mode[0] == 'a' ? O_CREAT | O_APPEND : mode[0] == 'w' ? O_CREAT | O_TRUNC : 0;
    int fd = do_open(p, fl, 0666);
    return fd < 0 ? NULL : fopencookie((void *)(long)fd, mode, (cookie_io_functions_t){ ck_read, ck_write, ck_seek, ck_close });
}
FILE *__real_fopen(const char *p, const char *mode);
FILE *__wrap_fopen(const char *p, const char *mode) { return strncmp(p, S5_PATH, strlen(S5_PATH)) ? __real_fopen(p, mode) : stream(p, mode); }

static char *content(int k, int *n) {
    char m[800], *b = malloc(1 << 20);
    snprintf(m, sizeof m, "%s/%s", dir, names(k));
    int fd = raw_open(m, O_RDONLY, 0);
    *n = 0;
    if (fd < 0) return b;
    long r;
    while ((r = syscall(SYS_read, fd, b + *n, (1 << 20) - *n)) > 0) *n += r;
    syscall(SYS_close, fd);
    return b;
}

static const char *quoted(const char *s, int n) {
    static char b[3][20000];
    static int k;
    char *o = b[k = (k + 1) % 3];
    int i, l = 0;
    for (i = 0; i < n && l < 19000; i++)
        if (s[i] == '\n') l += sprintf(o + l, "\\n");
        else if (s[i] == '"' || s[i] == '\\') l += sprintf(o + l, "\\%c", s[i]);
        else o[l++] = (unsigned char)s[i] < 32 || (unsigned char)s[i] > 126 ? '?' : s[i];
    o[l] = 0;
    return o;
}

/* what was added to the logs, and whether what was there still is */
static void report(const char *what, const char *lv, const char *text) {
    int k, kept = 1;
    const char *add[2];
    for (k = 0; k < 2; k++) {
        int n;
        char *c = content(k, &n);
        int same = n >= wasn[k] && !memcmp(c, was[k], wasn[k]);
        if (!same) kept = 0;
        add[k] = same ? quoted(c + wasn[k], n - wasn[k]) : "";
        free(was[k]);
        was[k] = c;
        wasn[k] = n;
    }
    long long t = now_ms + zone * 60000LL;
    ev("\"e\":\"%s\",\"lv\":\"%s\",\"text\":\"%s\",\"main\":\"%s\",\"access\":\"%s\",\"kept\":%s,\"day\":%d,\"sec\":%d,\"ms\":%d",
       what, lv, quoted(text, strlen(text)), add[0], add[1], kept ? "true" : "false", (int)(t / 86400000), (int)(t / 1000 % 86400), (int)(t % 1000));
}

static void scenario_start(void) {
    snprintf(dir, sizeof dir, "%s/l%d", getenv("DRV_DIR"), drv_sc);
    if (mkdir(dir, 0700)) _exit(3);
    was[0] = malloc(1);
    was[1] = malloc(1);
    systime_update();
}

static void put(const char *lv, const char *text) {
    if (!strcmp(lv, "error")) err("%s", text);
    else if (!strcmp(lv, "debug")) dbg("%s", text);
#ifdef access_log
    else if (!strcmp(lv, "info")) access_log("%s", text);
#endif
}

static void op(int n, char **a) {
    int x = n > 1 ? atoi(a[1]) : 0, i;
    static char text[8192];
    if (!strcmp(a[0], "new")) { if (log_init()) _exit(3); report("new", "", ""); }
    else if (!strcmp(a[0], "reopen")) { log_end(); if (log_init()) _exit(3); report("reopen", "", ""); }
    else if (!strcmp(a[0], "shut")) { log_end(); report("shut", "", ""); }
    else if (!strcmp(a[0], "level")) { config_get()->sys_log_level = x; ev("\"e\":\"level\",\"n\":%d", x); }
    else if (!strcmp(a[0], "busy")) { busy = x; ev("\"e\":\"busy\",\"on\":%s", x ? "true" : "false"); }
    else if (!strcmp(a[0], "time")) { now_ms = atoll(a[1]); systime_update(); }
    else if (!strcmp(a[0], "zone")) {
        char z[40];
        zone = x;
        sprintf(z, "XYZ%c%02d:%02d", x < 0 ? '+' : '-', abs(x) / 60, abs(x) % 60);
        setenv("TZ", z, 1);
        tzset();
        systime_update();
    }
    else if (!strcmp(a[0], "other")) {
        sprintf(text, "(%d)%s", x, "\n");
        other(0, text);
        other(1, text);
        report("other", "", text);
    }
    /* level, letters, ended by a newline, by a process of its own */
    else if (!strcmp(a[0], "put")) {
        int len = atoi(a[2]);
        text[0] = '{';
        for (i = 1; i <= len; i++) text[i] = 'a' + (i * 7 + i / 26) % 26;
        strcpy(text + i, atoi(a[3]) ? "}\n" : "}");
        if (n > 4 && atoi(a[4])) {
            pid_t p = fork();
            if (p < 0) _exit(3);
            if (!p) { put(a[1], text); _exit(0); }
            int st;
            waitpid(p, &st, 0);
            if (st) abort();
        } else put(a[1], text);
        report("put", a[1], text);
    }
}
