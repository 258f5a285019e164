#include "drv.h"
/* the clock is the driver's */
static long long now_ms = 1000000000LL;
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = now_ms / 1000; tv->tv_usec = now_ms % 1000 * 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = now_ms / 1000; ts->tv_nsec = now_ms % 1000 * 1000000; return 0; }
time_t time(time_t *t) { time_t r = now_ms / 1000; if (t) *t = r; return r; }

#define N 4000
static ev_timer_t *T[N];
static long long t0;
/* what a timer does when it fires: up to 6 "arm J D" / "del J" */
static struct { int n, kind[6], j[6], d[6]; } todo[N];
static int depth;

static void scenario_start(void) {
    if (mem_pool_init()) _exit(3);
    t0 = now_ms;
    systime_update();
    if (timer_init()) _exit(3);
}
static void fire(void *d);
static ev_timer_t *tm(int k) { if (!T[k]) T[k] = calloc(1, sizeof(ev_timer_t)); return T[k]; }
static void arm(int k, int d) {
    int rc = tm_add(tm(k), fire, (void *)(long)k, d);
    ev("\"e\":\"arm\",\"k\":%d,\"d\":%d,\"ok\":%s", k, d, rc ? "false" : "true");
}
static void del(int k) {
    int rc = tm_del(tm(k));
    ev("\"e\":\"del\",\"k\":%d,\"ok\":%s", k, rc ? "false" : "true");
}
static void fire(void *d) {
    int k = (int)(long)d, i, n = todo[k].n;
    ev("\"e\":\"fire\",\"k\":%d", k);
    if (++depth > 20000) _exit(4);
    todo[k].n = 0;
    for (i = 0; i < n; i++) {
        if (todo[k].kind[i] == 0) arm(todo[k].j[i], todo[k].d[i]);
        else del(todo[k].j[i]);
    }
}
static void op(int n, char **a) {
    int k = n > 1 ? atoi(a[1]) : 0, i;
    if (!strcmp(a[0], "arm")) arm(k, atoi(a[2]));
    else if (!strcmp(a[0], "del")) del(k);
    else if (!strcmp(a[0], "many")) {       /* many FIRST COUNT DELAY STEP */
        for (i = 0; i < atoi(a[2]); i++) arm(k + i, atoi(a[3]) + i * atoi(a[4]));
    } else if (!strcmp(a[0], "then")) {     /* then K arm J D | then K del J */
        i = todo[k].n++;
        if (i >= 6) _exit(3);
        todo[k].kind[i] = strcmp(a[2], "arm") != 0;
        todo[k].j[i] = atoi(a[3]);
        todo[k].d[i] = n > 4 ? atoi(a[4]) : 0;
    } else if (!strcmp(a[0], "adv")) {
        now_ms += k;
        systime_update();
        ev("\"e\":\"adv\",\"n\":%d", k);
    } else if (!strcmp(a[0], "run")) {
        int w = -1;
        ev("\"e\":\"run\"");
        timer_expire(&w);
        ev("\"e\":\"ran\",\"wait\":%d", w);
    } else _exit(3);
}
