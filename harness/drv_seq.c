#include "drv.h"
/* may have gone: nothing uses it */
extern meta_t *meta_dump(meta_t *) __attribute__((weak));

typedef struct { int id; queue_t link; } node_t;
#define NODES 200
static node_t nodes[NODES];
static queue_t heads[4];
static mem_arr_t *arr;
static int size, num;
static meta_t *bufs[64];
static int nbuf, puts_;

static int fill(int i, int j) { return (i * 7 + i / 256 * 3 + j * 13) % 256; }
static int pat(int k) { return (k * 31 + k / 256 * 17 + 5) % 256; }

static void scenario_start(void) {
    int i;
    if (mem_pool_init()) _exit(3);
    for (i = 0; i < 4; i++) queue_init(&heads[i]);
    for (i = 0; i < NODES; i++) nodes[i].id = i;
}

static int id_of(queue_t *q) {
    char *p = (char *)q - offsetof(node_t, link);
    if (p < (char *)nodes || p >= (char *)(nodes + NODES)) return -1;
    return ((node_t *)p)->id;
}

static void listed(const char *what, int h, int n) {
    char f[4096], b[4096];
    int fl = 0, bl = 0, c;
    queue_t *q;
    f[0] = b[0] = 0;
    for (c = 0, q = queue_head(&heads[h]); q && q != queue_tail(&heads[h]) && c < NODES + 1; q = queue_next(q), c++)
        fl += sprintf(f + fl, "%s%d", c ? "," : "", id_of(q));
    for (c = 0, q = queue_prev(queue_tail(&heads[h])); q && q != &heads[h] && c < NODES + 1; q = queue_prev(q), c++)
        bl += sprintf(b + bl, "%s%d", c ? "," : "", id_of(q));
    ev("\"e\":\"%s\",\"q\":%d,\"n\":%d,\"fwd\":[%s],\"back\":[%s],\"empty\":%s", what, h, n, f, b, queue_empty(&heads[h]) ? "true" : "false");
}

static const char *now(meta_t *m) {
    static char b[100];
    sprintf(b, "[%d,%d,%d]", (int)meta_getlen(m), (int)meta_getfree(m), (int)meta_cap(m));
    return b;
}

static void op(int n, char **a) {
    int x = n > 1 ? atoi(a[1]) : 0, y = n > 2 ? atoi(a[2]) : 0, i;
    if (!strcmp(a[0], "new")) return;
    if (!strcmp(a[0], "qhead")) { queue_insert(&heads[x], &nodes[y].link); listed(a[0], x, y); }
    else if (!strcmp(a[0], "qtail")) { queue_insert_tail(&heads[x], &nodes[y].link); listed(a[0], x, y); }
    else if (!strcmp(a[0], "qdel")) { queue_remove(&nodes[y].link); listed(a[0], x, y); }
    else if (!strcmp(a[0], "qlist")) listed(a[0], x, 0);
    else if (!strcmp(a[0], "anew")) {
        if (arr) mem_arr_free(arr);
        arr = NULL;
        size = x;
        num = 0;
        int rc = mem_arr_create(&arr, x);
        ev("\"e\":\"anew\",\"n\":%d,\"ok\":%s", x, rc ? "false" : "true");
        if (rc) _exit(0);
    } else if (!strcmp(a[0], "apush")) {
        unsigned char *p = mem_arr_push(arr);
        if (p) for (num++, i = 0; i < size; i++) p[i] = fill(num, i);
        ev("\"e\":\"apush\",\"ok\":%s", p ? "true" : "false");
    } else if (!strcmp(a[0], "aget")) {
        unsigned char *p = mem_arr_get(arr, x), o[32];
        int l = size <= 32 ? size : 32;
        if (p) for (i = 0; i < l; i++) o[i] = p[size <= 32 || i < 16 ? i : size - 32 + i];
        ev("\"e\":\"aget\",\"i\":%d,\"ok\":%s,\"out\":%s", x, p ? "true" : "false", jbytes(o, p ? l : 0));
    } else if (!strcmp(a[0], "bnew")) {
        meta_t *m = NULL;
        int rc = meta_alloc(&m, x);
        if (!rc) {
            if (nbuf) bufs[nbuf - 1]->next = m;
            bufs[nbuf++] = m;
        }
        ev("\"e\":\"bnew\",\"n\":%d,\"ok\":%s,\"now\":%s", x, rc ? "false" : "true", rc ? "[]" : now(m));
    } else if (!strcmp(a[0], "bput")) {
        unsigned char *d = malloc(y ? y : 1);
        for (i = 0; i < y; i++) d[i] = pat(puts_ + i);
        int rc = meta_pdata(bufs[x - 1], d, y);
        free(d);
        if (!rc) puts_ += y;
        ev("\"e\":\"bput\",\"k\":%d,\"n\":%d,\"ok\":%s,\"now\":%s", x, y, rc ? "false" : "true", now(bufs[x - 1]));
    } else if (!strcmp(a[0], "btake")) {
        meta_t *m = bufs[x - 1];
        if (y > meta_getlen(m)) y = meta_getlen(m);
        m->pos += y;
        ev("\"e\":\"btake\",\"k\":%d,\"n\":%d,\"now\":%s", x, y, now(m));
    } else if (!strcmp(a[0], "bclr")) {
        meta_clr(bufs[x - 1]);
        ev("\"e\":\"bclr\",\"k\":%d,\"now\":%s", x, now(bufs[x - 1]));
    } else if (!strcmp(a[0], "blen")) {
        ev("\"e\":\"blen\",\"n\":%d", nbuf ? meta_getlens(bufs[0]) : 0);
    } else if (!strcmp(a[0], "bjoin")) {
        if (!meta_dump || !nbuf) return;
        meta_t *m = meta_dump(bufs[0]);
        ev("\"e\":\"bjoin\",\"ok\":%s,\"out\":%s", m ? "true" : "false", jbytes(m ? m->pos : NULL, m ? meta_getlen(m) : 0));
        if (m && m != bufs[0]) meta_free(m);
    } else if (!strcmp(a[0], "bfree")) {
        if (nbuf) meta_free(bufs[0]);
        nbuf = 0;
        ev("\"e\":\"bfree\"");
    } else _exit(3);
}
