#include "drv.h"
static bst_t *t;
static void scenario_start(void) { if (mem_pool_init()) _exit(3); }

static char buf[1 << 18];
static int bn, bad, cnt;
/* keys from left to right, and whether every node knows its parent (if nodes do at all) */
static void walk(bst_node_t *n, bst_node_t *parent, int depth) {
    if (!n) return;
    if (++cnt > 5000 || depth > 5000) { bad = 1; return; }
#ifndef NO_PARENT
    if (n->parent != parent) bad = 1;
#endif
    walk(n->left, n, depth + 1);
    bn += sprintf(buf + bn, "%s%lld", bn > 1 ? "," : "", n->num);
    walk(n->right, n, depth + 1);
}

static void op(int n, char **a) {
    long long k = n > 1 ? atoll(a[1]) : 0;
    int rc = 0;
    const char *found = "false";
    if (!strcmp(a[0], "new")) { if (bst_create(&t)) _exit(3); }
    else if (!strcmp(a[0], "add")) rc = bst_add(t, k);
    else if (!strcmp(a[0], "del")) rc = bst_del(t, k);
    else if (!strcmp(a[0], "find")) { bst_node_t *x = bst_find(t, k); found = x && x->num == k && x != &t->head ? "true" : "false"; }
    else if (!strcmp(a[0], "free")) { bst_free(t); return; }
    else _exit(3);
    bn = bad = cnt = 0;
    buf[bn++] = '[';
    walk(t->head.right, &t->head, 0);
    buf[bn++] = ']';
    buf[bn] = 0;
    if (t->head.left) bad = 1;
    ev("\"e\":\"%s\",\"k\":%lld,\"ok\":%s,\"found\":%s,\"keys\":%s,\"num\":%d,\"links\":%s", a[0], k, rc ? "false" : "true", found, buf, t->elem_num, bad ? "false" : "true");
}
