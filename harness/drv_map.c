#include "drv.h"
static ezhash_t *h;
/* a stored value is its length followed by its bytes */
static void scenario_start(void) { if (mem_pool_init()) _exit(3); }

static void op(int n, char **a) {
    static unsigned char k[20000], v[20000];
    int kn = n > 1 ? unhex(a[1], k) : 0, rc;
    /* exact-size copies, so that reading beyond a key is seen */
    unsigned char *kk = malloc(kn ? kn : 1);
    memcpy(kk, k, kn);
    if (!strcmp(a[0], "new")) {
        if (ezhash_create(&h, atoi(a[1]))) _exit(3);
        ev("\"e\":\"new\"");
    } else if (!strcmp(a[0], "add")) {
        int vn = unhex(a[2], v + 2);
        unsigned char *vv = malloc(vn + 2);
        v[0] = vn / 256; v[1] = vn % 256;
        memcpy(vv, v, vn + 2);
        rc = ezhash_add(h, kk, kn, vv, vn + 2);
        memset(vv, 0x5a, vn + 2);
        free(vv);
        ev("\"e\":\"add\",\"k\":%s,\"v\":%s,\"ok\":%s", jbytes(k, kn), jbytes(v + 2, vn), rc ? "false" : "true");
    } else if (!strcmp(a[0], "find")) {
        unsigned char *r = ezhash_find(h, kk, kn);
        int vn = r ? r[0] * 256 + r[1] : 0;
        if (vn > 16000) vn = 0;
        ev("\"e\":\"find\",\"k\":%s,\"found\":%s,\"v\":%s", jbytes(k, kn), r ? "true" : "false", jbytes(r ? r + 2 : (unsigned char *)"", vn));
    } else if (!strcmp(a[0], "del")) {
        rc = ezhash_del(h, kk, kn);
        ev("\"e\":\"del\",\"k\":%s", jbytes(k, kn));
    } else if (!strcmp(a[0], "free")) {
        ezhash_free(h);
        h = NULL;
    } else _exit(3);
    memset(kk, 0xa5, kn);
    free(kk);
}
