#include "drv.h"
static ezac_ctx_t *c;
static void scenario_start(void) { if (mem_pool_init()) _exit(3); }
static void op(int n, char **a) {
    static unsigned char k[5000];
    if (!strcmp(a[0], "new")) {             /* new KEY... */
        int i;
        if (!(c = ezac_init())) _exit(3);
        for (i = 1; i < n; i++) {
            int kn = unhex(a[i], k);
            char *x = malloc(kn ? kn : 1);
            memcpy(x, k, kn);
            if (ezac_add(c, x, kn)) _exit(3);
            free(x);
        }
        ezac_compiler(c);
        ev("\"e\":\"new\"");
    } else if (!strcmp(a[0], "find")) {
        int kn = unhex(a[1], k);
        char *x = malloc(kn ? kn : 1);
        memcpy(x, k, kn);
        int rc = ezac_find(c, x, kn);
        free(x);
        ev("\"e\":\"find\",\"k\":%s,\"found\":%s", jbytes(k, kn), rc ? "false" : "true");
    } else if (!strcmp(a[0], "free")) { ezac_free(c); c = NULL; }
    else _exit(3);
}
