#include "drv.h"
static ringbuffer_t *rb;
static int cnt;
static int pat(int k) { return (k * 31 + k / 256 * 17 + 5) % 256; }

static void scenario_start(void) { if (mem_pool_init()) _exit(3); }

static void op(int n, char **a) {
    int k = n > 1 ? atoi(a[1]) : 0, i;
    if (!strcmp(a[0], "new")) {
        int rc = ringbuffer_alloc(&rb, k);
        cnt = 0;
        ev("\"e\":\"new\",\"n\":%d,\"ok\":%s,\"len\":%d,\"free\":%d", k, rc ? "false" : "true", rc ? 0 : ringbuffer_getlen(rb), rc ? 0 : ringbuffer_getfree(rb));
        if (rc) _exit(3);
    } else if (!strcmp(a[0], "push")) {
        unsigned char *d = malloc(k ? k : 1);
        for (i = 0; i < k; i++) d[i] = pat(cnt + i);
        int rc = ringbuffer_push(rb, d, k);
        free(d);
        if (!rc) cnt += k;
        ev("\"e\":\"push\",\"n\":%d,\"ok\":%s,\"len\":%d,\"free\":%d", k, rc ? "false" : "true", ringbuffer_getlen(rb), ringbuffer_getfree(rb));
    } else if (!strcmp(a[0], "pull")) {
        unsigned char *d = malloc(k ? k : 1);
        int out = 0;
        int rc = ringbuffer_pull(rb, k, d, &out);
        if (rc) out = 0;
        if (out < 0 || out > k) { ev("\"e\":\"crash\""); _exit(0); }
        ev("\"e\":\"pull\",\"n\":%d,\"ok\":%s,\"out\":%s,\"len\":%d,\"free\":%d", k, rc ? "false" : "true", jbytes(d, out), ringbuffer_getlen(rb), ringbuffer_getfree(rb));
        free(d);
    } else if (!strcmp(a[0], "free")) {
        ringbuffer_free(rb);
    } else _exit(3);
}
