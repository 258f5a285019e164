#include "drv.h"
/* blocks by slot; each is filled with a pattern of its own while it is held */
#define SLOTS 9000
static struct { unsigned char *p; int n, seq; } b[SLOTS];
static int seq;
static void scenario_start(void) {
    if (mem_pool_init()) _exit(3);
}
static unsigned char pat(int s, int i) { return (unsigned char)((s * 131 + i * 7 + (i >> 8) * 13) % 255 + 1); }
/* writes the whole block, or only its ends when the pool is being drained */
static void fill(int k) { int i; for (i = 0; i < b[k].n; i++) b[k].p[i] = pat(b[k].seq, i); }
static int intact(int k) { int i; for (i = 0; i < b[k].n; i++) if (b[k].p[i] != pat(b[k].seq, i)) return 0; return 1; }

/* returns: 0 failed, 1 fine; sets zero and hit (a live block it overlaps) */
static int get(int k, int n, int *zero, int *hit) {
    int i;
    unsigned char *p = mem_pool_alloc(n);
    *zero = 1; *hit = 0;
    if (!p) return 0;
    for (i = 0; i < n; i++) if (p[i]) *zero = 0;
    for (i = 0; i < SLOTS; i++) if (b[i].p && p < b[i].p + b[i].n && b[i].p < p + n) *hit = 1;
    b[k].p = p; b[k].n = n; b[k].seq = ++seq;
    fill(k);
    return 1;
}

static void op(int n, char **a) {
    int zero, hit, ok;
    if (!strcmp(a[0], "alloc")) {           /* alloc SLOT SIZE */
        int k = atoi(a[1]);
        if (b[k].p) { ev("\"e\":\"skip\""); return; }
        ok = get(k, atoi(a[2]), &zero, &hit);
        ev("\"e\":\"alloc\",\"k\":%d,\"n\":%d,\"ok\":%s,\"zero\":%s,\"hit\":%s", k, atoi(a[2]), ok ? "true" : "false", zero ? "true" : "false", hit ? "true" : "false");
    } else if (!strcmp(a[0], "free")) {     /* free SLOT */
        int k = atoi(a[1]);
        if (!b[k].p) { ev("\"e\":\"skip\""); return; }
        int fine = intact(k);
        int rc = mem_pool_free(b[k].p);
        b[k].p = NULL;
        ev("\"e\":\"free\",\"k\":%d,\"intact\":%s,\"ok\":%s", k, fine ? "true" : "false", rc ? "false" : "true");
    } else if (!strcmp(a[0], "drain")) {    /* drain SIZE FIRSTSLOT: allocate until it fails */
        int k = atoi(a[2]), c = 0, z = 1, h = 0;
        while (k < SLOTS) {
            if (b[k].p) { k++; continue; }
            if (!get(k, atoi(a[1]), &zero, &hit)) break;
            z &= zero; h |= hit; c++; k++;
        }
        ev("\"e\":\"drain\",\"n\":%d,\"k\":%d,\"got\":%d,\"zero\":%s,\"hit\":%s", atoi(a[1]), atoi(a[2]), c, z ? "true" : "false", h ? "true" : "false");
    } else if (!strcmp(a[0], "release")) {  /* release FIRST LAST [STEP]: free a range of slots */
        int i, c = 0, fine = 1, okk = 1, st = n > 3 ? atoi(a[3]) : 1;
        int c6[7] = {0};
        for (i = atoi(a[1]); i <= atoi(a[2]); i += st) if (b[i].p) {
            fine &= intact(i);
            int z = b[i].n, q = z <= 512 ? 0 : z <= 1024 ? 1 : z <= 2048 ? 2 : z <= 4096 ? 3 : z <= 8192 ? 4 : 5;
            if (mem_pool_free(b[i].p)) okk = 0;
            b[i].p = NULL; c++; c6[q]++;
        }
        ev("\"e\":\"release\",\"by\":[%d,%d,%d,%d,%d,%d],\"intact\":%s,\"ok\":%s", c6[0], c6[1], c6[2], c6[3], c6[4], c6[5], fine ? "true" : "false", okk ? "true" : "false");
    } else if (!strcmp(a[0], "check")) {
        int i, fine = 1;
        for (i = 0; i < SLOTS; i++) if (b[i].p && !intact(i)) fine = 0;
        ev("\"e\":\"check\",\"intact\":%s", fine ? "true" : "false");
    } else _exit(3);
}
