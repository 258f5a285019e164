/* Common part of the component drivers.
 *
 * usage: drv_X SCRIPT OUT
 * The script holds scenarios: a line "begin", then one operation per line.
 * Each scenario runs in a process of its own; every operation appends one
 * JSON line to OUT, and a scenario that dies is reported as "crash"/"hang". */
#include "common.h"
#include <sys/wait.h>
#include <stdarg.h>

static int drv_out = -1, drv_sc = -1;

static void ev(const char *fmt, ...) {
    static char b[1 << 20];
    int n = snprintf(b, sizeof b, "{\"s\":%d,", drv_sc);
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(b + n, sizeof b - n - 3, fmt, ap);
    va_end(ap);
    b[n++] = '}';
    b[n++] = '\n';
    if (write(drv_out, b, n) != n) _exit(3);
}

static const char *jbytes(const unsigned char *p, int n) {
    static char b[2][1 << 18];
    static int k;
    char *o = b[k ^= 1];
    int i, l = 0;
    o[l++] = '[';
    for (i = 0; i < n; i++) l += sprintf(o + l, "%s%d", i ? "," : "", p[i]);
    o[l++] = ']';
    o[l] = 0;
    return o;
}

static int unhex(const char *s, unsigned char *o) {
    int n = 0;
    unsigned v;
    if (!strcmp(s, "-")) return 0;
    while (s[0] && s[1] && sscanf(s, "%2x", &v) == 1) { o[n++] = v; s += 2; }
    return n;
}

/* one operation; a[0] is its name */
static void op(int n, char **a);
static void scenario_start(void);

int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    char *line = NULL;
    size_t cap = 0;
    long *pos = NULL;
    int ns = 0, i;
    if (!f) return 3;
    drv_out = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (drv_out < 0) return 3;
    while (getline(&line, &cap, f) > 0)
        if (!strncmp(line, "begin", 5)) {
            pos = realloc(pos, (ns + 1) * sizeof *pos);
            pos[ns++] = ftell(f);
        }
    fclose(f);
    fflush(NULL);
    for (i = 0; i < ns; i++) {
        pid_t p = fork();
        if (p < 0) return 3;
        if (!p) {
            drv_sc = i;
            f = fopen(argv[1], "r");
            if (!f || fseek(f, pos[i], SEEK_SET)) _exit(3);
            alarm(20);
            scenario_start();
            while (getline(&line, &cap, f) > 0 && strncmp(line, "begin", 5)) {
                char *a[600], *s = strtok(line, " \n");
                int n = 0;
                while (s && n < 600) { a[n++] = s; s = strtok(NULL, " \n"); }
                if (n) op(n, a);
            }
            ev("\"e\":\"end\"");
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        drv_sc = i;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ev("\"e\":\"hang\"");
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
        else if (!WIFEXITED(st) || WEXITSTATUS(st)) ev("\"e\":\"crash\"");
    }
    return 0;
}
