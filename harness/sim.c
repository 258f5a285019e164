/* Whole-program deterministic simulation.  The program under test is linked unmodified; the libc
 * wrappers it (and OpenSSL) uses are defined here.  A script drives the environment; everything
 * that crosses the boundary is written to an NDJSON trace. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/epoll.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <limits.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <poll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include "sim.h"

extern int s5_main(int argc, char **argv);
SSL *__real_SSL_new(SSL_CTX *);
void __real_SSL_free(SSL *);

static ep_t *eps[MAXFD];
static actor_t *acts[MAXACT];
static int nacts;
static FILE *out;
static char root[512];
static long long now_ms = 1700000000000LL, t0_ms = 1700000000000LL;
static unsigned long wakeseq;
static uint64_t rng = 88172645463325252ULL;
static int order_mode, evcap, rcvcap, sndcap, eintr_every, short_every;
static unsigned long iocount;
static int up_tls;
static char policy[16] = "auto";
static int supervisor;
static int started;
static int dial_no, dns_no;
static long waits_since_progress;
static volatile int in_sut;

/* accounting */
static long live_mem, live_sys, live_ssl, open_files, alloc_no;
static long fail_at, fail_n;          /* allocation faults: from allocation number fail_at, fail_n times */
static long sockfail_n, accfail_n, dgfail_n, up_room = -1;
static char accfail[16], dgfail[16];
static int up_cut;

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

/* ------------------------------------------------------------------ buffers */
static void b_add(buf_t *b, const void *d, size_t n) {
    if (!n) return;
    if (b->off && b->off == b->n) b->off = b->n = 0;
    if (b->n + n > b->cap) {
        size_t c = b->cap ? b->cap : 256;
        while (c < b->n + n) c *= 2;
        b->d = realloc(b->d, c);
        b->cap = c;
    }
    memcpy(b->d + b->n, d, n);
    b->n += n;
}
static size_t b_len(buf_t *b) { return b->n - b->off; }
static unsigned char *b_ptr(buf_t *b) { return b->d + b->off; }
static void b_skip(buf_t *b, size_t n) { b->off += n; if (b->off == b->n) b->off = b->n = 0; }
static void b_clear(buf_t *b) { b->off = b->n = 0; }

/* ------------------------------------------------------------------ log */
void sim_log(const char *fmt, ...) {
    va_list ap;
    fprintf(out, "{\"t\":%lld,", now_ms - t0_ms);
    va_start(ap, fmt);
    vfprintf(out, fmt, ap);
    va_end(ap);
    fputs("}\n", out);
}
static void hexout(char *dst, const unsigned char *d, size_t n) {
    static const char h[] = "0123456789abcdef";
    size_t i;
    for (i = 0; i < n; i++) { dst[2*i] = h[d[i] >> 4]; dst[2*i+1] = h[d[i] & 15]; }
    dst[2*n] = 0;
}
static void log_bytes(const char *e, const char *name, const unsigned char *d, size_t n, const char *extra) {
    char *h = malloc(2*n + 1);
    hexout(h, d, n);
    sim_log("\"e\":\"%s\",\"c\":\"%s\",\"h\":\"%s\"%s", e, name, h, extra ? extra : "");
    free(h);
}
static void sim_exit(int code) { fflush(out); syscall(SYS_exit_group, code); }
static void sim_die(const char *what) { sim_log("\"e\":\"simerror\",\"what\":\"%s\"", what); fflush(out); fprintf(stderr, "sim: %s\n", what); sim_exit(3); }

static void on_hang(int s) { (void)s; fprintf(out, "{\"t\":%lld,\"e\":\"hang\",\"kind\":\"cpu\"}\n", now_ms - t0_ms); sim_exit(42); }
static void on_crash(int s) { fprintf(out, "{\"t\":%lld,\"e\":\"crash\",\"sig\":%d}\n", now_ms - t0_ms, s); sim_exit(43); }
static void watchdog(int secs) {
    struct itimerval it = {{0,0},{secs,0}};
    syscall(SYS_setitimer, ITIMER_PROF, &it, NULL);
}

/* ------------------------------------------------------------------ pattern streams */
static unsigned char pat_byte(const char *name, long off) {
    uint64_t h = 1469598103934665603ULL;
    const char *p;
    for (p = name; *p; p++) { h ^= (unsigned char)*p; h *= 1099511628211ULL; }
    h ^= (uint64_t)(off / 8) * 0x9E3779B97F4A7C15ULL;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32; h *= 0x94D049BB133111EBULL; h ^= h >> 29;
    return (unsigned char)(h >> (8 * (off % 8)));
}

/* ------------------------------------------------------------------ endpoints */
static ep_t *ep_get(int fd) { return (fd >= FD0 && fd < MAXFD) ? eps[fd] : NULL; }
static ep_t *ep_new(int kind) {
    int fd;
    for (fd = FD0; fd < MAXFD; fd++) if (!eps[fd]) break;
    if (fd == MAXFD) return NULL;
    ep_t *e = calloc(1, sizeof(ep_t));
    e->kind = kind; e->fd = fd; e->room = -1;
    eps[fd] = e;
    return e;
}
static uint32_t ep_poll(ep_t *e) {
    uint32_t m = 0;
    if (e->kind == S_LISTEN) return e->npend ? EPOLLIN : 0;
    if (e->kind == S_DGRAM) return EPOLLOUT | (e->ndg ? EPOLLIN : 0);
    if (e->kind != S_STREAM) return 0;
    switch (e->st) {
    case ST_NEW: return EPOLLOUT | EPOLLHUP;
    case ST_CONNECTING: return 0;
    case ST_FAILED: return EPOLLIN | EPOLLOUT | EPOLLHUP | (e->so_error ? EPOLLERR : 0);
    case ST_RESET: return EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (e->so_error ? EPOLLERR : 0);
    }
    if (b_len(&e->rx) || e->rxeof) m |= EPOLLIN;
    if (e->rxeof) m |= EPOLLRDHUP;
    if (e->room != 0) m |= EPOLLOUT;
    return m;
}
/* wake: the file's wait queue was signalled with `key` (0 = unconditional) */
static void ep_wake(ep_t *e, uint32_t key) {
    if (!e || !e->reg) return;
    if (key && !(key & (e->mask | EPOLLERR | EPOLLHUP))) return;
    if (!e->onlist) { e->onlist = 1; e->seq = ++wakeseq; }
}

/* ------------------------------------------------------------------ actors */
static actor_t *act_find(const char *name) {
    int i;
    for (i = 0; i < nacts; i++) if (acts[i]->used && !strcmp(acts[i]->name, name)) return acts[i];
    return NULL;
}
static actor_t *act_new(const char *name) {
    if (nacts == MAXACT) sim_die("too many actors");
    actor_t *a = calloc(1, sizeof(actor_t));
    snprintf(a->name, sizeof a->name, "%s", name);
    a->used = 1; a->room0 = -1;
    acts[nacts++] = a;
    return a;
}

/* OpenSSL's error queue belongs to a thread: actors run on their own so they cannot disturb it */
static pthread_t actor_thr;
static sem_t job_go, job_done;
static void (*job_fn)(void *);
static void *job_arg;
static void *actor_main(void *x) {
    (void)x;
    for (;;) {
        sem_wait(&job_go);
        job_fn(job_arg);
        ERR_clear_error();
        sem_post(&job_done);
    }
    return NULL;
}
static void on_actor_thread(void (*fn)(void *), void *arg) {
    job_fn = fn; job_arg = arg;
    sem_post(&job_go);
    while (sem_wait(&job_done) != 0) ;
}

static SSL_CTX *actx_c, *actx_s;
static int tls12, small_rec;
static void mk_ctx(void *x) {
    (void)x;
    char p[600];
    actx_c = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_verify(actx_c, SSL_VERIFY_NONE, NULL);
    actx_s = SSL_CTX_new(TLS_server_method());
    snprintf(p, sizeof p, "%s/cert.pem", root);
    if (SSL_CTX_use_certificate_file(actx_s, p, SSL_FILETYPE_PEM) != 1) sim_die("actor cert");
    snprintf(p, sizeof p, "%s/key.pem", root);
    if (SSL_CTX_use_PrivateKey_file(actx_s, p, SSL_FILETYPE_PEM) != 1) sim_die("actor key");
}

static void wire_put(actor_t *a, const void *d, size_t n) { b_add(&a->wire, d, n); a->wire_total += n; }

/* deliver up to n wire bytes to the program; log plaintext that became available */
static void wire_deliver(actor_t *a, long n) {
    if (!a->ep || a->ep->st != ST_UP) return;
    size_t l = b_len(&a->wire);
    if (n >= 0 && (size_t)n < l) l = n;
    if (l) {
        b_add(&a->ep->rx, b_ptr(&a->wire), l);
        b_skip(&a->wire, l);
        size_t before = a->wire_deliv;
        a->wire_deliv += l;
        int logged = 0;
        while (a->rec_i < a->nrecs && a->recs[a->rec_i].wend <= a->wire_deliv) {
            rec_t *r = &a->recs[a->rec_i++];
            if (r->poff >= 0) sim_log("\"e\":\"in\",\"c\":\"%s\",\"n\":%zu,\"pat\":%ld", a->name, r->n, r->poff);
            else { log_bytes("in", a->name, r->d, r->n, NULL); }
            free(r->d); r->d = NULL;
            logged = 1;
        }
        /* a clear-text stream may be cut anywhere */
        if (!a->tls && a->rec_i < a->nrecs) {
            rec_t *r = &a->recs[a->rec_i];
            size_t rstart = r->wend - r->n;
            size_t s = before > rstart ? before : rstart;
            if (a->wire_deliv > s) {
                size_t k = a->wire_deliv - s;
                size_t o = s - rstart;
                if (r->poff >= 0) sim_log("\"e\":\"in\",\"c\":\"%s\",\"n\":%zu,\"pat\":%ld", a->name, k, r->poff + (long)o);
                else log_bytes("in", a->name, r->d + o, k, NULL);
                logged = 1;
                /* shrink the record to its rest */
                memmove(r->d, r->d + o + k, r->n - o - k);
                if (r->poff >= 0) r->poff += o + k;
                r->n -= o + k;
            }
        }
        if (!logged) sim_log("\"e\":\"wire\",\"c\":\"%s\",\"n\":%zu", a->name, l);
        ep_wake(a->ep, EPOLLIN);
    }
    if (a->fin_after && !b_len(&a->wire)) {
        a->fin_after = 0;
        a->finned = 1;
        a->ep->rxeof = 1;
        sim_log("\"e\":\"fin\",\"c\":\"%s\"", a->name);
        ep_wake(a->ep, 0);
    }
}
static void add_rec(actor_t *a, const unsigned char *d, size_t n, long poff) {
    if (a->nrecs == a->caprecs) { a->caprecs = a->caprecs ? 2*a->caprecs : 16; a->recs = realloc(a->recs, a->caprecs * sizeof(rec_t)); }
    rec_t *r = &a->recs[a->nrecs++];
    r->wend = a->wire_total; r->n = n; r->poff = poff;
    r->d = malloc(n ? n : 1);
    memcpy(r->d, d, n);
}
static void tls_flush(actor_t *a) {
    unsigned char tmp[16384];
    int n;
    BIO *w = SSL_get_wbio(a->ssl);
    while ((n = BIO_read(w, tmp, sizeof tmp)) > 0) wire_put(a, tmp, n);
    if (!a->hold) wire_deliver(a, -1);
}
static void send_plain(actor_t *a, const unsigned char *d, size_t n, long poff) {
    if (a->aborted || a->finned) return;
    if (!a->tls) {
        wire_put(a, d, n);
        add_rec(a, d, n, poff);
        if (!a->hold) wire_deliver(a, -1);
        return;
    }
    while (n) {
        size_t k = n > 16000 ? 16000 : n;
        int rc = SSL_write(a->ssl, d, (int)k);
        if (rc <= 0) { sim_log("\"e\":\"actsendfail\",\"c\":\"%s\"", a->name); return; }
        unsigned char tmp[16384];
        int m;
        BIO *w = SSL_get_wbio(a->ssl);
        while ((m = BIO_read(w, tmp, sizeof tmp)) > 0) wire_put(a, tmp, m);
        add_rec(a, d, k, poff);
        if (poff >= 0) poff += k;
        d += k; n -= k;
    }
    if (!a->hold) wire_deliver(a, -1);
}
static void tls_start(actor_t *a) {
    a->ssl = __real_SSL_new(a->server ? actx_s : actx_c);
    if (tls12) SSL_set_max_proto_version(a->ssl, TLS1_2_VERSION);
    SSL_set_bio(a->ssl, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem()));
    BIO_set_mem_eof_return(SSL_get_rbio(a->ssl), -1);
    if (a->server) SSL_set_accept_state(a->ssl); else SSL_set_connect_state(a->ssl);
}
static void tls_hs(actor_t *a) {
    if (a->hs_done || a->hs_fail) return;
    ERR_clear_error();
    int rc = SSL_do_handshake(a->ssl);
    if (rc == 1) {
        a->hs_done = 1;
        sim_log("\"e\":\"hsdone\",\"c\":\"%s\"", a->name);
    } else {
        int er = SSL_get_error(a->ssl, rc);
        if (er != SSL_ERROR_WANT_READ && er != SSL_ERROR_WANT_WRITE) {
            a->hs_fail = 1;
            sim_log("\"e\":\"hsfail\",\"c\":\"%s\"", a->name);
        }
    }
    tls_flush(a);
}
static int act_process(actor_t *a) {
    int did = 0;
    if (b_len(&a->in)) {
        did = 1;
        if (!a->tls) {
            log_bytes("out", a->name, b_ptr(&a->in), b_len(&a->in), NULL);
            b_clear(&a->in);
        } else if (!a->ssl) {
            log_bytes("outraw", a->name, b_ptr(&a->in), b_len(&a->in), NULL);
            b_clear(&a->in);
        } else {
            BIO_write(SSL_get_rbio(a->ssl), b_ptr(&a->in), (int)b_len(&a->in));
            b_clear(&a->in);
            if (!a->hs_done) tls_hs(a);
            if (a->hs_done) {
                unsigned char tmp[16384];
                buf_t acc = {0};
                int n;
                ERR_clear_error();
                while ((n = SSL_read(a->ssl, tmp, sizeof tmp)) > 0) b_add(&acc, tmp, n);
                if (b_len(&acc)) log_bytes("out", a->name, b_ptr(&acc), b_len(&acc), NULL);
                free(acc.d);
                int er = SSL_get_error(a->ssl, n);
                if (er == SSL_ERROR_ZERO_RETURN) {
                    if (!a->close_seen) { a->close_seen = 1; sim_log("\"e\":\"outclosenotify\",\"c\":\"%s\"", a->name); }
                } else if (er != SSL_ERROR_WANT_READ && er != SSL_ERROR_WANT_WRITE) {
                    sim_log("\"e\":\"badtls\",\"c\":\"%s\"", a->name);
                }
                tls_flush(a);
            }
        }
    }
    if (a->hs_done && b_len(&a->pend_plain)) {
        did = 1;
        long po = a->out_off;
        size_t n = b_len(&a->pend_plain);
        unsigned char *d = malloc(n);
        memcpy(d, b_ptr(&a->pend_plain), n);
        b_clear(&a->pend_plain);
        (void)po;
        send_plain(a, d, n, -1);
        free(d);
    }
    if (a->closed_by_sut && !a->eof_logged) { a->eof_logged = 1; }
    return did;
}
static void pump_all(void *x) {
    int i, *did = x;
    *did = 0;
    for (i = 0; i < nacts; i++) if (acts[i]->used && act_process(acts[i])) *did = 1;
}

/* ------------------------------------------------------------------ script */
static char **lines; static int nlines, curline;
static void load_script(const char *path) {
    FILE *f = fopen(path, "r");
    char *l = NULL; size_t cap = 0; ssize_t n;
    if (!f) { perror(path); sim_exit(3); }
    while ((n = getline(&l, &cap, f)) >= 0) {
        while (n > 0 && (l[n-1] == '\n' || l[n-1] == '\r')) l[--n] = 0;
        if (!n || l[0] == '#') continue;
        lines = realloc(lines, sizeof(char *) * (nlines + 1));
        lines[nlines++] = strdup(l);
    }
    free(l); fclose(f);
}
static long long adv_until;
static int want_stop;
static int pend_sig[65];
static long sig_at; static int sig_no;
static uint64_t sigmask_, waitmask;
static int deliver_signals(uint64_t mask);
static void (*handlers[65])(int);

static size_t unhex(const char *s, unsigned char *d) {
    size_t n = 0; unsigned v;
    while (s[0] && s[1] && sscanf(s, "%2x", &v) == 1) { d[n++] = v; s += 2; }
    return n;
}
struct cmdarg { char *v[16]; int n; };
static actor_t *need(const char *n) { actor_t *a = act_find(n); if (!a) { static char m[64]; snprintf(m, 64, "no actor %s", n); sim_die(m); } return a; }
static int listener_for(int port) {
    int fd;
    for (fd = FD0; fd < MAXFD; fd++) if (eps[fd] && eps[fd]->kind == S_LISTEN && eps[fd]->port == port) return fd;
    return -1;
}
static void do_reset(actor_t *a) {
    a->aborted = 1;
    sim_log("\"e\":\"rst\",\"c\":\"%s\"", a->name);
    b_clear(&a->wire);
    if (a->ep) {
        if (a->ep->st == ST_UP || a->ep->st == ST_CONNECTING) {
            a->ep->st = ST_RESET; a->ep->so_error = ECONNRESET;
            b_clear(&a->ep->rx);
            ep_wake(a->ep, 0);
        }
    }
}
static void dial_result(actor_t *a, const char *r) {
    ep_t *e = a->ep;
    if (!e || e->st != ST_CONNECTING) return;
    int ok = !strcmp(r, "ok");
    sim_log("\"e\":\"dialres\",\"c\":\"%s\",\"ok\":%s", a->name, ok ? "true" : "false");
    if (ok) {
        e->st = ST_UP;
        a->accepted = 1;
        if (a->tls && !a->ssl) tls_start(a);
    } else {
        e->st = ST_FAILED;
        e->so_error = !strcmp(r, "unreach") ? EHOSTUNREACH : !strcmp(r, "timeout") ? ETIMEDOUT : ECONNREFUSED;
    }
    ep_wake(e, 0);
}
static void exec_cmd(void *x) {
    struct cmdarg *c = x;
    char **v = c->v;
    unsigned char *tmp;
    actor_t *a;
    static const char *per_actor[] = {"hs","send","raw","flip","hold","unhold","deliver","fin","tlsclose","keyupdate","rst","room","cutat","dialres","dnsreply",NULL};
    int pa;
    for (pa = 0; per_actor[pa]; pa++)
        if (!strcmp(v[0], per_actor[pa]) && !act_find(v[1])) { sim_log("\"e\":\"skip\",\"c\":\"%s\"", v[1]); return; }
    if (!strcmp(v[0], "order")) order_mode = !strcmp(v[1], "lifo") ? 1 : !strcmp(v[1], "rand") ? 2 : 0;
    else if (!strcmp(v[0], "evcap")) evcap = atoi(v[1]);
    else if (!strcmp(v[0], "rcvcap")) rcvcap = atoi(v[1]);
    else if (!strcmp(v[0], "sndcap")) sndcap = atoi(v[1]);
    else if (!strcmp(v[0], "eintr")) eintr_every = atoi(v[1]);
    else if (!strcmp(v[0], "tls12")) tls12 = atoi(v[1]);
    else if (!strcmp(v[0], "policy")) snprintf(policy, sizeof policy, "%s", v[1]);
    else if (!strcmp(v[0], "uptls")) up_tls = atoi(v[1]);
    else if (!strcmp(v[0], "conn")) {
        /* conn NAME PORT plain|tls [hold] [nohs] [room=N] */
        int i;
        a = act_new(v[1]);
        a->client = 1; a->port = atoi(v[2]); a->tls = !strcmp(v[3], "tls");
        int nohs = 0;
        for (i = 4; i < c->n; i++) {
            if (!strcmp(v[i], "hold")) a->hold = 1;
            if (!strcmp(v[i], "nohs")) nohs = 1;
            if (!strncmp(v[i], "room=", 5)) a->room0 = atol(v[i]+5);
        }
        int l = listener_for(a->port);
        sim_log("\"e\":\"conn\",\"c\":\"%s\",\"port\":%d,\"tls\":%s,\"refused\":%s", a->name, a->port, a->tls ? "true" : "false", l < 0 ? "true" : "false");
        if (l < 0) return;
        ep_t *le = eps[l];
        if (le->npend >= 2048) sim_die("accept queue");
        le->pend[le->npend++] = a;
        ep_wake(le, EPOLLIN);
        if (a->tls) {
            tls_start(a);
            a->nohs = nohs;
            if (!nohs) tls_hs(a);
        }
    }
    else if (!strcmp(v[0], "hs")) { a = need(v[1]); a->nohs = 0; tls_hs(a); }
    else if (!strcmp(v[0], "send")) {
        /* send NAME hex:..|pat:N|txt:.. */
        a = need(v[1]);
        if (!strncmp(v[2], "pat:", 4)) {
            long n = atol(v[2]+4), i;
            tmp = malloc(n + 1);
            for (i = 0; i < n; i++) tmp[i] = pat_byte(a->name, a->out_off + i);
            if (a->tls && !a->hs_done) { sim_log("\"e\":\"skip\",\"c\":\"%s\"", a->name); free(tmp); return; }
            long k, step = c->n > 3 ? atol(v[3]) : n;
            for (k = 0; k < n; k += step) {
                long m = n - k < step ? n - k : step;
                send_plain(a, tmp + k, m, a->out_off + k);
            }
            a->out_off += n;
            free(tmp);
        } else {
            size_t n = strlen(v[2]);
            tmp = malloc(n + 1);
            if (!strncmp(v[2], "hex:", 4)) n = unhex(v[2]+4, tmp);
            else { n = strlen(v[2]+4); memcpy(tmp, v[2]+4, n); }
            if (a->tls && !a->hs_done) b_add(&a->pend_plain, tmp, n);
            else {
                size_t k, step = c->n > 3 ? (size_t)atol(v[3]) : n;
                for (k = 0; k < n; k += step) send_plain(a, tmp + k, n - k < step ? n - k : step, -1);
            }
            free(tmp);
        }
    }
    else if (!strcmp(v[0], "raw")) {   /* raw wire bytes, no TLS */
        a = need(v[1]);
        if (a->tls) sim_log("\"e\":\"junk\",\"c\":\"%s\"", a->name);
        size_t n = strlen(v[2]);
        tmp = malloc(n + 1);
        n = unhex(v[2], tmp);
        wire_put(a, tmp, n);
        free(tmp);
        if (!a->hold) wire_deliver(a, -1);
    }
    else if (!strcmp(v[0], "flip")) {  /* corrupt a byte of the undelivered wire data */
        a = need(v[1]);
        size_t o = atol(v[2]);
        if (o < b_len(&a->wire)) b_ptr(&a->wire)[o] ^= 0x55;
        sim_log("\"e\":\"flip\",\"c\":\"%s\"", a->name);
    }
    else if (!strcmp(v[0], "hold")) { a = need(v[1]); a->hold = 1; }
    else if (!strcmp(v[0], "unhold")) { a = need(v[1]); a->hold = 0; wire_deliver(a, -1); }
    else if (!strcmp(v[0], "deliver")) { a = need(v[1]); wire_deliver(a, !strcmp(v[2], "all") ? -1 : atol(v[2])); }
    else if (!strcmp(v[0], "fin")) {
        a = need(v[1]);
        if (!a->aborted && !a->finned && (a->ep || !a->accepted)) {
            a->fin_after = 1;
            if (!a->hold || !b_len(&a->wire)) wire_deliver(a, -1);
        }
    }
    else if (!strcmp(v[0], "tlsclose")) {
        a = need(v[1]);
        if (a->tls && a->ssl && a->hs_done && !a->alert_sent && !a->aborted && !a->finned) {
            a->alert_sent = 1;
            SSL_shutdown(a->ssl);
            sim_log("\"e\":\"closenotify\",\"c\":\"%s\"", a->name);
            tls_flush(a);
        }
    }
    else if (!strcmp(v[0], "keyupdate")) {
        a = need(v[1]);
        if (a->ssl && a->hs_done) { SSL_key_update(a->ssl, SSL_KEY_UPDATE_REQUESTED); SSL_do_handshake(a->ssl); sim_log("\"e\":\"ku\",\"c\":\"%s\"", a->name); tls_flush(a); }
    }
    else if (!strcmp(v[0], "rst")) { a = need(v[1]); if (!a->aborted) do_reset(a); }
    else if (!strcmp(v[0], "room")) {
        a = need(v[1]);
        long r;
        long cur = a->ep ? a->ep->room : a->room0;
        if (!strcmp(v[2], "inf")) r = -1;
        else if (v[2][0] == '+') r = cur < 0 ? -1 : cur + atol(v[2]+1);
        else r = atol(v[2]);
        sim_log("\"e\":\"room\",\"c\":\"%s\",\"n\":%ld", a->name, r);
        if (a->ep) {
            long old = a->ep->room;
            a->ep->room = r;
            if (old == 0 && r != 0) ep_wake(a->ep, EPOLLOUT);
        } else a->room0 = r;
    }
    else if (!strcmp(v[0], "dialres")) dial_result(need(v[1]), v[2]);
    else if (!strcmp(v[0], "dnsreply")) {
        /* dnsreply NAME HEX [ip port] ; id beef stands for that of the query */
        a = need(v[1]);
        if (!a->ep) { sim_log("\"e\":\"dnslate\",\"c\":\"%s\"", a->name); return; }
        ep_t *e = a->ep;
        if (e->ndg >= 64) return;
        struct dg *g = &e->dg[e->ndg++];
        const char *hex = strcmp(v[2], "-") ? v[2] : "";
        g->d = malloc(strlen(hex) + 1);
        g->n = (int)unhex(hex, g->d);
        if (g->n >= 2 && g->d[0] == 0xbe && g->d[1] == 0xef) memcpy(g->d, a->qid, 2);
        g->ip = c->n > 3 ? inet_addr(v[3]) : a->ip;
        g->port = c->n > 4 ? htons(atoi(v[4])) : htons(a->port);
        char x[80];
        struct in_addr ia = {g->ip};
        snprintf(x, sizeof x, ",\"ip\":\"%s\",\"port\":%d", inet_ntoa(ia), ntohs(g->port));
        log_bytes("dnsr", a->name, g->d, g->n, x);
        if (e->peer_port && (g->ip != e->peer_ip || g->port != e->peer_port)) { free(g->d); e->ndg--; return; }
        ep_wake(e, EPOLLIN);
    }
    else if (!strcmp(v[0], "adv")) {
        adv_until = now_ms + atoll(v[1]);
    }
    else if (!strcmp(v[0], "failalloc")) {
        fail_at = alloc_no + atol(v[1]); fail_n = c->n > 2 ? atol(v[2]) : atol(v[1]) > 0;
        sim_log("\"e\":\"failalloc\"");
    }
    else if (!strcmp(v[0], "sockfail")) { sockfail_n = atol(v[1]); sim_log("\"e\":\"sockfail\""); }
    else if (!strcmp(v[0], "accfail")) { snprintf(accfail, sizeof accfail, "%s", v[1]); accfail_n = atol(v[2]); }
    else if (!strcmp(v[0], "dgfail")) { snprintf(dgfail, sizeof dgfail, "%s", v[1]); dgfail_n = atol(v[2]); }
    else if (!strcmp(v[0], "cutat")) { a = need(v[1]); if (a->ep) a->ep->cut = atoi(v[2]); else a->cut0 = atoi(v[2]); }
    else if (!strcmp(v[0], "cutup")) up_cut = atoi(v[1]);
    else if (!strcmp(v[0], "uproom")) up_room = !strcmp(v[1], "inf") ? -1 : atol(v[1]);
    else if (!strcmp(v[0], "mark")) sim_log("\"e\":\"mark\",\"x\":\"%s\"", v[1]);
    else if (!strcmp(v[0], "seed")) rng = 88172645463325252ULL ^ (strtoull(v[1], 0, 10) * 0x9E3779B97F4A7C15ULL), rnd();
    else if (!strcmp(v[0], "chmod")) { char p[1200]; snprintf(p, sizeof p, "%s/%s", root, v[1]); if (strstr(v[1], "..")) sim_die("chmod"); syscall(SYS_chmod, p, strtol(v[2], 0, 8)); }
    else if (!strcmp(v[0], "grow")) { /* somebody adds to a file */
        char p[1200]; long k = atol(v[2]); if (strstr(v[1], "..")) sim_die("grow"); snprintf(p, sizeof p, "%s/%s", root, v[1]);
        int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_APPEND, 0); if (fd < 0) sim_die("grow");
        while (k-- > 0) if (syscall(SYS_write, fd, "+", 1) != 1) sim_die("grow");
        syscall(SYS_close, fd);
    }
    else if (!strcmp(v[0], "extend")) { /* a file with a hole at its end */
        char p[1200]; if (strstr(v[1], "..")) sim_die("extend"); snprintf(p, sizeof p, "%s/%s", root, v[1]);
        if (syscall(SYS_truncate, p, atol(v[2]))) sim_die("extend");
    }
    else if (!strcmp(v[0], "shrink")) { /* or cuts it, while NAME waits for it */
        char p[1200]; if (strstr(v[2], "..")) sim_die("shrink"); snprintf(p, sizeof p, "%s/%s", root, v[2]);
        if (syscall(SYS_truncate, p, atol(v[3]))) sim_die("shrink");
        sim_log("\"e\":\"shrunk\",\"c\":\"%s\"", v[1]);
    }
    else if (!strcmp(v[0], "hide")) { /* make the certificate unreadable */ char p[1200], q[1200]; if (strstr(v[1], "..")) sim_die("hide"); snprintf(p, sizeof p, "%s/%s", root, v[1]); snprintf(q, sizeof q, "%s/%s.hidden", root, v[1]); syscall(SYS_rename, p, q); sim_log("\"e\":\"hide\""); }
    else if (!strcmp(v[0], "unhide")) { char p[1200], q[1200]; if (strstr(v[1], "..")) sim_die("hide"); snprintf(p, sizeof p, "%s/%s", root, v[1]); snprintf(q, sizeof q, "%s/%s.hidden", root, v[1]); syscall(SYS_rename, q, p); sim_log("\"e\":\"unhide\""); }
    else if (!strcmp(v[0], "stop")) want_stop = 1;
    else if (!strcmp(v[0], "sig")) { pend_sig[atoi(v[1])] = 1; sim_log("\"e\":\"post\",\"s\":%d", atoi(v[1])); }
    else if (!strcmp(v[0], "sigat")) { sig_at = iocount + atol(v[1]); sig_no = atoi(v[2]); }
    else if (!strcmp(v[0], "end") || !strcmp(v[0], "epoch") || !strcmp(v[0], "nop")) ;
    /* meant for a supervising process that is none */
    else if (supervisor && (!strcmp(v[0], "die") || !strcmp(v[0], "dieall") || !strcmp(v[0], "forkfail") || !strcmp(v[0], "inject"))) ;
    else { static char m[80]; snprintf(m, 80, "bad command %s", v[0]); sim_die(m); }
}
static void run_line(char *l) {
    struct cmdarg c = {{0},0};
    char *dup = strdup(l), *s = dup, *tok;
    while ((tok = strsep(&s, " ")) && c.n < 16) if (*tok) c.v[c.n++] = tok;
    if (c.n) on_actor_thread(exec_cmd, &c);
    free(dup);
}
static void log_quiesce(void) {
    int fd, n = 0;
    for (fd = FD0; fd < MAXFD; fd++) if (eps[fd] && (eps[fd]->kind == S_STREAM || eps[fd]->kind == S_DGRAM)) n++;
    /* endpoints that accept nothing now / that hold back bytes they produced */
    char blk[4096], und[4096]; int i, kb = 0, ku = 0;
    blk[0] = und[0] = 0;
    for (i = 0; i < nacts; i++) {
        actor_t *a = acts[i];
        if (a->ep && a->ep->room == 0 && kb < 4000) kb += sprintf(blk + kb, "%s\"%s\"", kb ? "," : "", a->name);
        if (a->ep && (b_len(&a->wire) || a->nohs) && ku < 4000) ku += sprintf(und + ku, "%s\"%s\"", ku ? "," : "", a->name);
    }
    sim_log("\"e\":\"q\",\"mem\":%ld,\"sys\":%ld,\"ssl\":%ld,\"socks\":%d,\"files\":%ld,\"blk\":[%s],\"und\":[%s]", live_mem, live_sys, live_ssl, n, open_files, blk, und);
}
/* returns 0 when the script is exhausted */
static int script_step(void) {
    if (curline >= nlines) return 0;
    char *l = lines[curline++];
    if (!strcmp(l, "batch")) {
        while (curline < nlines && strcmp(lines[curline], "end")) run_line(lines[curline++]);
        curline++;
    } else run_line(l);
    return 1;
}
/* what the program has written so far is seen by its peers before its next visible action */
static void drain(void) { int did; on_actor_thread(pump_all, &did); }
static int pump(void) { int did; on_actor_thread(pump_all, &did); return did; }

/* ------------------------------------------------------------------ scheduler = epoll_wait */
static int collect(struct epoll_event *evs, int max) {
    ep_t *list[MAXFD]; int n = 0, fd, i, k = 0;
    for (fd = FD0; fd < MAXFD; fd++) if (eps[fd] && eps[fd]->reg && eps[fd]->onlist) list[n++] = eps[fd];
    /* arrival order */
    for (i = 1; i < n; i++) { ep_t *x = list[i]; int j = i; while (j > 0 && list[j-1]->seq > x->seq) { list[j] = list[j-1]; j--; } list[j] = x; }
    if (order_mode == 1) for (i = 0; i < n/2; i++) { ep_t *x = list[i]; list[i] = list[n-1-i]; list[n-1-i] = x; }
    if (order_mode == 2) for (i = n-1; i > 0; i--) { int j = rnd() % (i+1); ep_t *x = list[i]; list[i] = list[j]; list[j] = x; }
    if (evcap && max > evcap) max = evcap;
    for (i = 0; i < n && k < max; i++) {
        uint32_t r = ep_poll(list[i]) & (list[i]->mask | EPOLLERR | EPOLLHUP) & ~(uint32_t)EPOLLET;
        if (!r) { list[i]->onlist = 0; continue; }
        evs[k].events = r;
        evs[k].data.u64 = list[i]->data;
        k++;
        if (list[i]->mask & EPOLLET) list[i]->onlist = 0;
        else list[i]->seq = ++wakeseq;
    }
    return k;
}
static int finish(void) {
    log_quiesce();
    sim_log("\"e\":\"end\"");
    sim_exit(0);
    return 0;
}
int epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout) {
    (void)epfd;
    long long deadline = timeout < 0 ? -1 : now_ms + timeout;
    watchdog(20);
    if (!started) { started = 1; sim_log("\"e\":\"start\""); }
    if (++waits_since_progress > 20000) { sim_log("\"e\":\"hang\",\"kind\":\"spin\""); sim_exit(42); }
    for (;;) {
        while (pump()) ;
        int n = collect(evs, max);
        if (n) return n;
        if (adv_until) {
            if (deadline >= 0 && deadline <= adv_until) {
                if (deadline > now_ms) waits_since_progress = 0;
                now_ms = deadline;
                return 0;
            }
            now_ms = adv_until; adv_until = 0;
            waits_since_progress = 0;
            sim_log("\"e\":\"tick\"");
            if (deadline >= 0 && deadline <= now_ms) return 0;
            continue;
        }
        if (deliver_signals(waitmask)) { errno = EINTR; return -1; }
        if (timeout == 0) return 0;
        if (want_stop) {
            if (want_stop == 2) { sim_log("\"e\":\"nostop\""); return finish(); }
            want_stop = 2;
            log_quiesce();
            sim_log("\"e\":\"stopreq\"");
            if (handlers[SIGINT]) handlers[SIGINT](SIGINT);
            errno = EINTR;
            return -1;
        }
        log_quiesce();
        waits_since_progress = 0;
        if (!script_step()) return finish();
    }
}
static uint64_t set2mask(const sigset_t *s) { uint64_t m = 0; int i; for (i = 1; i < 64; i++) if (sigismember(s, i) == 1) m |= 1ULL << i; return m; }
int epoll_pwait(int epfd, struct epoll_event *evs, int max, int timeout, const sigset_t *m) {
    int n, e;
    if (m) waitmask = set2mask(m);
    n = epoll_wait(epfd, evs, max, timeout);
    e = errno; waitmask = sigmask_; errno = e;
    return n;
}

/* ------------------------------------------------------------------ interposed calls */
static int io_eintr(void) {
    iocount++;
    if (sig_at && iocount >= sig_at) { sig_at = 0; pend_sig[sig_no] = 1; sim_log("\"e\":\"post\",\"s\":%d", sig_no); deliver_signals(sigmask_); }
    if (eintr_every && iocount % eintr_every == 0) { errno = EINTR; return 1; }
    return 0;
}
int epoll_create1(int f) { (void)f; return ep_new(S_EPOLL)->fd; }
int epoll_create(int f) { return epoll_create1(f); }
int epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
    (void)epfd;
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_DEL) { if (!e->reg) { errno = ENOENT; return -1; } e->reg = e->onlist = 0; return 0; }
    if (op == EPOLL_CTL_ADD && e->reg) { errno = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && !e->reg) { errno = ENOENT; return -1; }
    e->reg = 1; e->mask = ev->events; e->data = ev->data.u64;
    if (ep_poll(e) & (e->mask | EPOLLERR | EPOLLHUP)) { if (!e->onlist) { e->onlist = 1; e->seq = ++wakeseq; } }
    return 0;
}
int socket(int d, int t, int p) {
    (void)d; (void)p;
    if (sockfail_n > 0) { sockfail_n--; sim_log("\"e\":\"sockfailed\""); errno = EMFILE; return -1; }
    ep_t *e = ep_new((t & 0xf) == SOCK_DGRAM ? S_DGRAM : S_STREAM);
    if (!e) { errno = EMFILE; return -1; }
    if (t & SOCK_NONBLOCK) e->nonblock = 1;
    return e->fd;
}
int bind(int fd, const struct sockaddr *sa, socklen_t l) {
    (void)l;
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    e->port = ntohs(((const struct sockaddr_in *)sa)->sin_port);
    sim_log("\"e\":\"bind\",\"port\":%d,\"ip\":\"%s\"", e->port, inet_ntoa(((const struct sockaddr_in *)sa)->sin_addr));
    return 0;
}
int listen(int fd, int bl) {
    (void)bl;
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    e->kind = S_LISTEN;
    sim_log("\"e\":\"listen\",\"port\":%d", e->port);
    return 0;
}
int accept4(int fd, struct sockaddr *sa, socklen_t *l, int fl) {
    ep_t *e = ep_get(fd);
    if (!e || e->kind != S_LISTEN) { errno = EBADF; return -1; }
    if (!e->npend) { if (!e->nonblock) sim_log("\"e\":\"blocking\",\"call\":\"accept\""); errno = EAGAIN; return -1; }
    actor_t *a = e->pend[0];
    if (accfail_n > 0) {
        accfail_n--;
        if (!strcmp(accfail, "mfile")) { sim_log("\"e\":\"sockfailed\""); errno = EMFILE; return -1; }
        memmove(e->pend, e->pend + 1, --e->npend * sizeof(e->pend[0]));
        if (!a->aborted) do_reset(a);
        errno = ECONNABORTED;
        return -1;
    }
    memmove(e->pend, e->pend + 1, --e->npend * sizeof(e->pend[0]));
    ep_t *n = ep_new(S_STREAM);
    if (!n) { errno = EMFILE; return -1; }
    n->st = ST_UP; n->act = a; n->room = a->room0; n->cut = a->cut0;
    if (fl & SOCK_NONBLOCK) n->nonblock = 1;
    a->ep = n; a->accepted = 1;
    if (sa && l && *l >= sizeof(struct sockaddr_in)) {
        struct sockaddr_in s = {.sin_family = AF_INET, .sin_port = htons(40000), .sin_addr.s_addr = inet_addr("10.9.8.7")};
        memcpy(sa, &s, sizeof s); *l = sizeof s;
    }
    sim_log("\"e\":\"accept\",\"c\":\"%s\"", a->name);
    if (a->aborted) { n->st = ST_RESET; n->so_error = ECONNRESET; }
    else if (!a->hold) wire_deliver(a, -1);
    return n->fd;
}
int accept(int fd, struct sockaddr *sa, socklen_t *l) { return accept4(fd, sa, l, 0); }
static void up_ok(void *x) { actor_t *a = x; if (a->tls && !a->ssl) tls_start(a); }
int connect(int fd, const struct sockaddr *sa, socklen_t l) {
    (void)l;
    ep_t *e = ep_get(fd);
    const struct sockaddr_in *s = (const void *)sa;
    char nm[32];
    if (!e) { errno = EBADF; return -1; }
    if (e->kind == S_DGRAM) { e->peer_ip = s->sin_addr.s_addr; e->peer_port = s->sin_port; return 0; }
    if (e->st == ST_CONNECTING) { errno = EALREADY; return -1; }
    if (e->st == ST_UP) { errno = EISCONN; return -1; }
    if (io_eintr()) { return -1; }
    snprintf(nm, sizeof nm, "U%d", ++dial_no);
    actor_t *a = act_new(nm);
    a->tls = a->server = up_tls;
    a->port = ntohs(s->sin_port); a->ip = s->sin_addr.s_addr;
    a->ep = e; e->act = a;
    const char *p = policy;
    e->cut = up_cut; up_cut = 0;
    drain();
    sim_log("\"e\":\"dial\",\"c\":\"%s\",\"ip\":\"%s\",\"port\":%d,\"res\":\"%s\",\"nb\":%s", nm, inet_ntoa(s->sin_addr), a->port, p, e->nonblock ? "true" : "false");
    if (up_room >= 0) { e->room = up_room; sim_log("\"e\":\"room\",\"c\":\"%s\",\"n\":%ld", nm, up_room); }
    if (!strcmp(p, "refuse") || !strcmp(p, "unreach")) {
        e->st = ST_FAILED;
        errno = !strcmp(p, "refuse") ? ECONNREFUSED : ENETUNREACH;
        return -1;
    }
    if (!strcmp(p, "ok")) { e->st = ST_UP; a->accepted = 1; on_actor_thread(up_ok, a); return 0; }
    e->st = ST_CONNECTING;
    if (!strcmp(p, "auto")) {
        e->st = ST_UP; a->accepted = 1; on_actor_thread(up_ok, a); ep_wake(e, 0);
        sim_log("\"e\":\"dialres\",\"c\":\"%s\",\"ok\":true", nm);
    }
    errno = EINPROGRESS;
    return -1;
}
int __real_close(int);
int close(int fd) {
    ep_t *e = ep_get(fd);
    if (fd >= FD0 && fd < MAXFD) {
        if (!e) { sim_log("\"e\":\"badclose\",\"fd\":%d", fd); errno = EBADF; return -1; }
        if (e->act) {
            actor_t *a = e->act;
            drain();
            sim_log("\"e\":\"close\",\"c\":\"%s\",\"unread\":%zu", a->name, b_len(&e->rx));
            a->closed_by_sut = 1; a->ep = NULL;
        } else if (e->kind == S_LISTEN) sim_log("\"e\":\"unlisten\",\"port\":%d", e->port);
        eps[fd] = NULL;
        free(e->rx.d); free(e);
        return 0;
    }
    int rc = (int)syscall(SYS_close, fd);
    if (fd > 2 && out && started) {
        if (rc < 0) sim_log("\"e\":\"badclose\",\"fd\":%d", fd);
        else { sim_log("\"e\":\"fclose\",\"fd\":%d", fd); }
    }
    if (rc == 0 && fd > 2) open_files--;
    return rc;
}
/* the peer may be gone between two calls */
static void cut_off(ep_t *e) {
    if (e->cut > 0 && --e->cut == 0 && e->act && !e->act->aborted && e->st == ST_UP) { drain(); do_reset(e->act); }
}
static ssize_t do_recv(ep_t *e, void *buf, size_t n, int peek) {
    cut_off(e);
    if (e->kind != S_STREAM) { errno = ENOTCONN; return -1; }
    if (e->st == ST_RESET || e->st == ST_FAILED) {
        if (e->so_error) { errno = e->so_error; e->so_error = 0; return -1; }
        return 0;
    }
    if (e->st != ST_UP) { errno = e->st == ST_CONNECTING ? EAGAIN : ENOTCONN; return -1; }
    size_t l = b_len(&e->rx);
    if (!l) { if (e->rxeof) return 0; if (!e->nonblock) sim_log("\"e\":\"blocking\",\"call\":\"recv\""); errno = EAGAIN; return -1; }
    if (l > n) l = n;
    if (rcvcap && l > (size_t)rcvcap) l = rcvcap;
    memcpy(buf, b_ptr(&e->rx), l);
    if (!peek) b_skip(&e->rx, l);
    return l;
}
static ssize_t do_send(ep_t *e, const void *buf, size_t n) {
    cut_off(e);
    if (e->kind != S_STREAM) { errno = ENOTCONN; return -1; }
    if (e->st == ST_RESET || e->st == ST_FAILED) {
        if (e->so_error) { errno = e->so_error; e->so_error = 0; return -1; }
        errno = EPIPE; return -1;
    }
    if (e->st != ST_UP) { errno = e->st == ST_CONNECTING ? EAGAIN : EPIPE; return -1; }
    if (e->room == 0) { if (!e->nonblock) sim_log("\"e\":\"blocking\",\"call\":\"send\""); errno = EAGAIN; return -1; }
    size_t l = n;
    if (e->room > 0 && (size_t)e->room < l) l = e->room;
    if (sndcap && l > (size_t)sndcap) l = sndcap;
    unsigned char *copy = malloc(l ? l : 1);
    memcpy(copy, buf, l);
    b_add(&e->act->in, copy, l);
    free(copy);
    if (e->room > 0) e->room -= l;
    return l;
}
ssize_t recv(int fd, void *buf, size_t n, int fl) {
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    if (e->kind == S_DGRAM) return recvfrom(fd, buf, n, fl, NULL, NULL);
    if (io_eintr()) return -1;
    return do_recv(e, buf, n, fl & MSG_PEEK);
}
ssize_t send(int fd, const void *buf, size_t n, int fl) {
    (void)fl;
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    if (e->kind == S_DGRAM) return sendto(fd, buf, n, fl, NULL, 0);
    if (io_eintr()) return -1;
    return do_send(e, buf, n);
}
ssize_t read(int fd, void *buf, size_t n) {
    ep_t *e = ep_get(fd);
    if (!e) return syscall(SYS_read, fd, buf, n);
    if (e->kind == S_DGRAM) return recvfrom(fd, buf, n, 0, NULL, NULL);
    if (io_eintr()) return -1;
    return do_recv(e, buf, n, 0);
}
static void sup_point(void);
static unsigned char logsink[1<<16];
ssize_t write(int fd, const void *buf, size_t n) {
    ep_t *e = ep_get(fd);
    if (!e) {
        size_t k, m = n;
        const unsigned char *p = buf;
        while (m) { k = m > sizeof logsink ? sizeof logsink : m; memcpy(logsink, p, k); p += k; m -= k; }
        if (fd == 1) return n;
        sup_point();
        return syscall(SYS_write, fd, buf, n);
    }
    if (e->kind == S_DGRAM) return sendto(fd, buf, n, 0, NULL, 0);
    if (io_eintr()) return -1;
    return do_send(e, buf, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    ssize_t t = 0; int i;
    for (i = 0; i < c; i++) { ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    ssize_t t = 0; int i;
    for (i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t recvfrom(int fd, void *buf, size_t n, int fl, struct sockaddr *sa, socklen_t *l) {
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    if (e->kind == S_STREAM) return recv(fd, buf, n, fl);
    if (io_eintr()) return -1;
    if (!e->ndg) { if (!e->nonblock) sim_log("\"e\":\"blocking\",\"call\":\"recvfrom\""); errno = EAGAIN; return -1; }
    struct dg g = e->dg[0];
    memmove(e->dg, e->dg + 1, --e->ndg * sizeof(g));
    size_t k = (size_t)g.n < n ? (size_t)g.n : n;
    memcpy(buf, g.d, k);
    free(g.d);
    if (sa && l && *l >= sizeof(struct sockaddr_in)) {
        struct sockaddr_in s = {.sin_family = AF_INET, .sin_port = g.port, .sin_addr.s_addr = g.ip};
        memcpy(sa, &s, sizeof s); *l = sizeof s;
    }
    return k;
}
ssize_t sendto(int fd, const void *buf, size_t n, int fl, const struct sockaddr *sa, socklen_t l) {
    (void)l;
    ep_t *e = ep_get(fd);
    const struct sockaddr_in *s = (const void *)sa;
    if (!e) { errno = EBADF; return -1; }
    if (e->kind == S_STREAM) return send(fd, buf, n, fl);
    struct sockaddr_in to = {.sin_family = AF_INET};
    if (!s && e->peer_port) { to.sin_addr.s_addr = e->peer_ip; to.sin_port = e->peer_port; s = &to; }
    if (io_eintr()) return -1;
    if (dgfail_n > 0) {
        dgfail_n--;
        if (!strcmp(dgfail, "again")) { ep_wake(e, EPOLLOUT); errno = EAGAIN; return -1; }
        sim_log("\"e\":\"sockfailed\"");
        errno = ENETUNREACH;
        return -1;
    }
    if (!e->act) {
        char nm[32];
        snprintf(nm, sizeof nm, "D%d", ++dns_no);
        actor_t *a = act_new(nm);
        a->resolver = 1; a->ep = e; e->act = a;
        if (s) { a->ip = s->sin_addr.s_addr; a->port = ntohs(s->sin_port); }
    }
    char x[128] = "";
    drain();
    if (s) snprintf(x, sizeof x, ",\"ip\":\"%s\",\"port\":%d", inet_ntoa(s->sin_addr), ntohs(s->sin_port));
    unsigned char *copy = malloc(n ? n : 1);
    memcpy(copy, buf, n);
    if (n >= 2) memcpy(e->act->qid, copy, 2);
    log_bytes("dnsq", e->act->name, copy, n, x);
    free(copy);
    return n;
}
ssize_t sendfile(int fd, int in, off_t *off, size_t n) {
    char b[16384];
    if (n > sizeof b) n = sizeof b;
    off_t at = off ? *off : lseek(in, 0, SEEK_CUR);
    ssize_t r = pread(in, b, n, at);
    if (r > 0) r = send(fd, b, (size_t)r, 0);
    if (r > 0) { if (off) *off = at + r; else lseek(in, at + r, SEEK_SET); }
    return r;
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) { (void)fl; return recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, 0, m->msg_name, m->msg_name ? &m->msg_namelen : NULL); }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { (void)fl;
    if (ep_get(fd) && ep_get(fd)->kind == S_STREAM) return writev(fd, m->msg_iov, m->msg_iovlen);
    return sendto(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, 0, m->msg_name, m->msg_namelen); }
int shutdown(int fd, int how) {
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    if (e->act && how != SHUT_RD) sim_log("\"e\":\"outfin\",\"c\":\"%s\"", e->act->name);
    return 0;
}
int getsockopt(int fd, int lv, int op, void *v, socklen_t *l) {
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    if (lv == SOL_SOCKET && op == SO_ERROR) { *(int *)v = e->so_error; e->so_error = 0; *l = sizeof(int); return 0; }
    if (v && l && *l >= sizeof(int)) *(int *)v = 0;
    return 0;
}
int setsockopt(int fd, int lv, int op, const void *v, socklen_t l) { (void)lv; (void)op; (void)v; (void)l; if (!ep_get(fd)) { errno = EBADF; return -1; } return 0; }
int getpeername(int fd, struct sockaddr *sa, socklen_t *l) {
    ep_t *e = ep_get(fd);
    if (!e || e->kind != S_STREAM || e->st != ST_UP) { errno = ENOTCONN; return -1; }
    struct sockaddr_in s = {.sin_family = AF_INET, .sin_port = htons(e->act ? e->act->port : 0), .sin_addr.s_addr = e->act ? e->act->ip : 0};
    memcpy(sa, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
    return 0;
}
int getsockname(int fd, struct sockaddr *sa, socklen_t *l) {
    ep_t *e = ep_get(fd);
    if (!e) { errno = EBADF; return -1; }
    struct sockaddr_in s = {.sin_family = AF_INET, .sin_port = htons(50000), .sin_addr.s_addr = inet_addr("10.9.8.1")};
    memcpy(sa, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    ep_t *e = ep_get(fd);
    if (!e) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    if (cmd == F_GETFL) return O_RDWR | (e->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { e->nonblock = !!(arg & O_NONBLOCK); return 0; }
    return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }

int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    ep_t *e = ep_get(fd);
    if (!e) return (int)syscall(SYS_ioctl, fd, req, arg);
    if (req == FIONBIO) e->nonblock = !!*(int *)arg;
    return 0;
}
/* asks, never waits */
int poll(struct pollfd *f, nfds_t n, int timeout) {
    nfds_t i; int k = 0;
    for (i = 0; i < n; i++) {
        ep_t *e = f[i].fd >= 0 ? ep_get(f[i].fd) : NULL;
        f[i].revents = 0;
        if (e) f[i].revents = (short)(ep_poll(e) & (f[i].events | POLLERR | POLLHUP));
        if (f[i].revents) k++;
    }
    if (!k && timeout && started) sim_log("\"e\":\"blocking\",\"call\":\"poll\"");
    return k;
}

/* time */
int gettimeofday(struct timeval *restrict tv, void *restrict z) { (void)z; tv->tv_sec = now_ms / 1000; tv->tv_usec = (now_ms % 1000) * 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return (int)syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = now_ms / 1000; ts->tv_nsec = (now_ms % 1000) * 1000000L; return 0;
}
time_t time(time_t *t) { time_t v = now_ms / 1000; if (t) *t = v; return v; }

/* files: the installation prefix is redirected into the scratch root */
static const char *map_path(const char *p, char *b, size_t n) {
    static const char pre[] = "/usr/local/s5/";
    if (!strncmp(p, pre, sizeof pre - 1)) { snprintf(b, n, "%s/%s", root, p + sizeof pre - 1); return b; }
    return p;
}
static int below_root(const char *m) {
    return !strncmp(m, root, strlen(root)) && m[strlen(root)] == '/' && !strstr(m, "/../");
}
static void log_path(const char *e, const char *p, int rc) {
    char *esc = malloc(strlen(p) * 6 + 1), *q = esc;
    size_t rl = strlen(root);
    const char *s = p;
    int inroot = !strncmp(p, root, rl) && p[rl] == '/';
    if (inroot) s = p + rl;
    for (; *s; s++) { if ((unsigned char)*s < 32 || *s == '"' || *s == '\\' || (unsigned char)*s > 126) q += sprintf(q, "\\u%04x", (unsigned char)*s); else *q++ = *s; }
    *q = 0;
    sim_log("\"e\":\"%s\",\"path\":\"%s\",\"inroot\":%s,\"rc\":%d", e, esc, inroot ? "true" : "false", rc);
    free(esc);
}
/* the checks run as root, for whom every file is readable; the service need not */
static int unreadable(const char *m) {
    struct stat st;
    return started && !syscall(SYS_stat, m, &st) && S_ISREG(st.st_mode) && !(st.st_mode & S_IRUSR);
}
static void sup_point(void);
static int do_open(const char *p, int fl, int mode) {
    char b[1400];
    const char *m = map_path(p, b, sizeof b);
    int write_ = (fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT);
    int inroot = below_root(m);
    if (write_ && !inroot && strcmp(m, "/dev/null")) { log_path("forbidden", m, -1); errno = EACCES; return -1; }
    if (!write_ && unreadable(m)) { log_path("fopen", m, -1); errno = EACCES; return -1; }
    sup_point();
    int fd = (int)syscall(SYS_open, m, fl, mode);
    struct stat st;
    /* a directory is looked at, it has no bytes to serve */
    int dir = fd >= 0 && !syscall(SYS_fstat, fd, &st) && S_ISDIR(st.st_mode);
    if (started || supervisor) log_path(dir ? "dopen" : "fopen", m, fd < 0 ? -1 : fd);
    if (fd >= 0) open_files++;
    return fd;
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return do_open(p, fl, mode); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return do_open(p, fl, mode); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); if (d == AT_FDCWD || p[0] == '/') return do_open(p, fl, mode);
    /* below an open directory */
    char l[64], b[3000];
    snprintf(l, sizeof l, "/proc/self/fd/%d", d);
    ssize_t n = readlink(l, b, 1000);
    if (n <= 0) { errno = EBADF; return -1; }
    snprintf(b + n, sizeof b - n, "/%s", p);
    return do_open(b, fl, mode); }
int stat(const char *restrict p, struct stat *restrict st) { char b[1400]; return (int)syscall(SYS_stat, map_path(p, b, sizeof b), st); }
int lstat(const char *restrict p, struct stat *restrict st) { char b[1400]; return (int)syscall(SYS_lstat, map_path(p, b, sizeof b), st); }
int access(const char *p, int m) {
    char b[1400];
    p = map_path(p, b, sizeof b);
    if ((m & R_OK) && unreadable(p)) { errno = EACCES; return -1; }
    return (int)syscall(SYS_access, p, m);
}
int unlink(const char *p) {
    char b[1400];
    const char *m = map_path(p, b, sizeof b);
    int inroot = below_root(m);
    int rc = -1;
    sup_point();
    if (inroot) rc = (int)syscall(SYS_unlink, m);
    log_path("unlink", m, rc);
    sup_point();
    return rc;
}
int remove(const char *p) { return unlink(p); }
int rename(const char *a, const char *b) {
    char x[1400], y[1400];
    const char *m = map_path(a, x, sizeof x), *n = map_path(b, y, sizeof y);
    if (!below_root(m) || !below_root(n)) { log_path("forbidden", n, -1); errno = EACCES; return -1; }
    sup_point();
    int rc = (int)syscall(SYS_rename, m, n);
    sup_point();
    return rc;
}
int mkdir(const char *p, mode_t mode) {
    char b[1400];
    const char *m = map_path(p, b, sizeof b);
    if (!below_root(m)) { log_path("forbidden", m, -1); errno = EACCES; return -1; }
    return (int)syscall(SYS_mkdir, m, mode);
}
int rmdir(const char *p) { log_path("forbidden", p, -1); errno = EACCES; return -1; }
int chmod(const char *p, mode_t mode) {
    char b[1400];
    const char *m = map_path(p, b, sizeof b);
    if (!below_root(m)) { log_path("forbidden", m, -1); errno = EACCES; return -1; }
    return (int)syscall(SYS_chmod, m, mode);
}
int stat64(const char *restrict p, struct stat64 *restrict st) { return stat(p, (struct stat *)st); }
int lstat64(const char *restrict p, struct stat64 *restrict st) { return lstat(p, (struct stat *)st); }
int fstatat(int d, const char *restrict p, struct stat *restrict st, int fl) {
    char b[1400];
    return (int)syscall(SYS_newfstatat, d, map_path(p, b, sizeof b), st, fl);
}
int faccessat(int d, const char *p, int m, int fl) {
    (void)fl;
    if (d == AT_FDCWD || *p == '/') return access(p, m);
    return (int)syscall(SYS_faccessat, d, p, m);
}
int creat(const char *p, mode_t mode) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int truncate(const char *p, off_t n) {
    int fd = do_open(p, O_WRONLY, 0), rc;
    if (fd < 0) return -1;
    rc = ftruncate(fd, n);
    close(fd);
    return rc;
}
int link(const char *a, const char *b) { (void)a; log_path("forbidden", b, -1); errno = EACCES; return -1; }
int symlink(const char *a, const char *b) { (void)a; log_path("forbidden", b, -1); errno = EACCES; return -1; }
int system(const char *c) { log_path("forbidden", c ? c : "", -1); errno = EACCES; return -1; }
FILE *popen(const char *c, const char *m) { (void)m; log_path("forbidden", c, -1); errno = EACCES; return NULL; }
/* the scratch root goes by the name of the installation */
char *realpath(const char *restrict p, char *restrict out) {
    static char *(*real)(const char *, char *);
    static const char pre[] = "/usr/local/s5";
    char b[1400], c[PATH_MAX];
    size_t rl = strlen(root);
    if (!real) real = dlsym(RTLD_NEXT, "realpath");
    if (!strcmp(p, pre)) snprintf(b, sizeof b, "%s", root), p = b;
    else p = map_path(p, b, sizeof b);
    if (!real(p, c)) return NULL;
    if (!out) out = malloc(PATH_MAX);
    if (!strncmp(c, root, rl) && (c[rl] == '/' || !c[rl])) snprintf(out, PATH_MAX, "%s%s", pre, c + rl);
    else snprintf(out, PATH_MAX, "%s", c);
    return out;
}
int mkstemp(char *t) {
    static int n;
    size_t l = strlen(t);
    char x[16];
    if (l < 6) { errno = EINVAL; return -1; }
    snprintf(x, sizeof x, "%06d", ++n % 1000000);
    memcpy(t + l - 6, x, 6);
    return do_open(t, O_CREAT | O_EXCL | O_RDWR, 0600);
}
static FILE *(*real_fopen)(const char *, const char *);
FILE *fopen(const char *restrict p, const char *restrict m) {
    char b[1400];
    if (!real_fopen) real_fopen = dlsym(RTLD_NEXT, "fopen");
    p = map_path(p, b, sizeof b);
    if (started) log_path("fopen", p, 0);
    if ((started || supervisor) && *m != 'r' && !below_root(p) && strcmp(p, "/dev/null")) { log_path("forbidden", p, -1); errno = EACCES; return NULL; }
    if (*m == 'r' && unreadable(p)) { errno = EACCES; return NULL; }
    return real_fopen(p, m);
}
FILE *fopen64(const char *restrict p, const char *restrict m) { return fopen(p, m); }

/* ------------------------------------------------------------------ processes and signals */
static int fork_no, child_at, pids[MAXKID], alive[MAXKID], zombie[MAXKID], npids;
static int in_handler;
static void sup_state(const char *e);
static int self_pid = 4242;
static long inject_at; static char inject_line[256];
static int fork_fail, ready;
static pthread_t main_thr;

static int deliver_signals(uint64_t mask) {
    int s, n = 0;
    for (s = 1; s < 65; s++) if (pend_sig[s] && !(mask & (1ULL << s))) {
        pend_sig[s] = 0;
        sim_log("\"e\":\"sig\",\"s\":%d", s);
        if (handlers[s] && handlers[s] != SIG_DFL && handlers[s] != SIG_IGN) { in_handler++; n++; handlers[s](s); in_handler--; }
        else if (s != SIGCHLD && s != SIGURG && s != SIGWINCH && handlers[s] != SIG_IGN) { sup_state("killedby"); sim_exit(0); }
        s = 0;
    }
    return n;
}
static int sup_cmd(char *l) {
    /* die K | sig N | die+sig are posted; delivery respects the mask */
    char a[32] = "", b[64] = ""; 
    sscanf(l, "%31s %63s", a, b);
    if (!strcmp(a, "die")) {
        int k = atoi(b) - 1, i, live = 0, tgt = -1;
        for (i = 0; i < npids; i++) if (alive[i]) { if (live == k) { tgt = i; break; } live++; }
        if (tgt < 0) { sim_log("\"e\":\"nop\""); return 0; }
        alive[tgt] = 0; zombie[tgt] = 1; pend_sig[SIGCHLD] = 1;
        sim_log("\"e\":\"die\",\"pid\":%d", pids[tgt]);
        return 1;
    }
    if (!strcmp(a, "dieall")) { int i, any = 0; for (i = 0; i < npids; i++) if (alive[i]) { alive[i] = 0; zombie[i] = 1; any = 1; pend_sig[SIGCHLD] = 1; sim_log("\"e\":\"die\",\"pid\":%d", pids[i]); } return any; }
    if (!strcmp(a, "sig")) { pend_sig[atoi(b)] = 1; sim_log("\"e\":\"post\",\"s\":%d", atoi(b)); return 1; }
    if (!strcmp(a, "forkfail")) { fork_fail = atoi(b); return 0; }
    if (!strcmp(a, "inject")) { /* inject N cmd... : run cmd at the N-th following interposed call */
        char *p = strstr(l, b); inject_at = iocount + atol(b); snprintf(inject_line, sizeof inject_line, "%s", p + strlen(b) + 1); return 0; }
    if (!strcmp(a, "nop")) return 0;
    sim_die("bad supervisor command");
    return 0;
}
static void sup_point(void) {
    if (!supervisor || in_handler || !ready || !pthread_equal(pthread_self(), main_thr)) return;
    iocount++;
    if (inject_at && iocount >= inject_at) { inject_at = 0; sup_cmd(inject_line); }
    deliver_signals(sigmask_);
}
static void sup_state(const char *e) {
    char b[8 * MAXKID]; int i, o = 0, pf;
    char p[700]; struct stat st; char c[32] = ""; int fd;
    b[0] = 0;
    for (i = 0; i < npids; i++) if (alive[i]) o += snprintf(b + o, sizeof b - o, "%s%d", o ? "," : "", pids[i]);
    snprintf(p, sizeof p, "%s/logs/pid", root);
    pf = syscall(SYS_stat, p, &st) == 0;
    if (pf) { fd = (int)syscall(SYS_open, p, O_RDONLY, 0); ssize_t n = syscall(SYS_read, fd, c, 31); if (n > 0) c[n] = 0; c[strspn(c, "0123456789")] = 0; syscall(SYS_close, fd); }
    sim_log("\"e\":\"%s\",\"alive\":[%s],\"pidfile\":\"%s\"", e, b, pf ? c : "none");
}
pid_t fork(void) {
    if (!supervisor) { errno = EAGAIN; return -1; }
    sup_point();
    if (fork_fail > 0 || npids == MAXKID) { if (fork_fail > 0) fork_fail--; sim_log("\"e\":\"forkfailed\""); errno = EAGAIN; return -1; }
    fork_no++;
    if (child_at && fork_no == child_at) {
        sim_log("\"e\":\"ischild\"");
        self_pid = 5000 + fork_no;
        memset(pend_sig, 0, sizeof pend_sig);
        return 0;
    }
    pids[npids] = 5000 + fork_no; alive[npids] = 1; zombie[npids] = 0;
    sim_log("\"e\":\"fork\",\"pid\":%d", pids[npids]);
    npids++;
    return pids[npids-1];
}
pid_t vfork(void) { return fork(); }
pid_t getpid(void) { sup_point(); return self_pid; }
pid_t setsid(void) { return self_pid; }
int raise(int s) { pend_sig[s] = 1; deliver_signals(sigmask_); return 0; }
int kill(pid_t p, int s) {
    int i;
    if (!supervisor) { sim_log("\"e\":\"kill\",\"pid\":%d,\"s\":%d,\"ok\":false", p, s); errno = ESRCH; return -1; }
    sup_point();
    for (i = 0; i < npids; i++) if (pids[i] == p && (alive[i] || zombie[i])) { sim_log("\"e\":\"kill\",\"pid\":%d,\"s\":%d,\"ok\":true", p, s); return 0; }
    if (p == 4242) { sim_log("\"e\":\"kill\",\"pid\":%d,\"s\":%d,\"ok\":true", p, s); return 0; }
    sim_log("\"e\":\"kill\",\"pid\":%d,\"s\":%d,\"ok\":false", p, s);
    errno = ESRCH; return -1;
}
pid_t waitpid(pid_t p, int *st, int opt) {
    int i, any = 0;
    if (supervisor && !in_handler) sup_point();
    if (st) *st = 0;
    for (i = 0; i < npids; i++) {
        if (zombie[i] && (p == -1 || p == pids[i])) { zombie[i] = 0; sim_log("\"e\":\"reap\",\"pid\":%d", pids[i]); return pids[i]; }
        if (alive[i]) any = 1;
    }
    if (!any) { errno = ECHILD; return -1; }
    if (!(opt & WNOHANG)) { sim_log("\"e\":\"blocking\",\"call\":\"waitpid\""); errno = EINTR; return -1; }
    return 0;
}
int sigaction(int s, const struct sigaction *restrict a, struct sigaction *restrict o) {
    sup_point();
    if (o) { memset(o, 0, sizeof *o); if (s > 0 && s < 65) o->sa_handler = handlers[s]; }
    if (a && s > 0 && s < 65) { handlers[s] = a->sa_handler; }
    return 0;
}
typedef void (*shandler)(int);
shandler signal(int s, shandler h) { shandler o = handlers[s]; handlers[s] = h; return o; }
int sigprocmask(int how, const sigset_t *restrict s, sigset_t *restrict o) {
    if (o) { int i; sigemptyset(o); for (i = 1; i < 64; i++) if (sigmask_ & (1ULL << i)) sigaddset(o, i); }
    if (s) {
        uint64_t m = set2mask(s);
        if (how == SIG_BLOCK) sigmask_ |= m; else if (how == SIG_UNBLOCK) sigmask_ &= ~m; else sigmask_ = m;
        waitmask = sigmask_;
    }
    if (supervisor) { sup_point(); }
    return 0;
}
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return sigprocmask(how, s, o); }
static int wait_signal(uint64_t m, int take) {
    int i;
    if (!supervisor) { errno = EINTR; return -1; }
    watchdog(20);
    for (;;) {
        for (i = 1; i < 65; i++) if (pend_sig[i] && !(m & (1ULL << i))) {
            if (!take) { deliver_signals(m); errno = EINTR; return -1; }
            pend_sig[i] = 0;
            sim_log("\"e\":\"sig\",\"s\":%d", i);
            return i;
        }
        if (take && deliver_signals(sigmask_)) { errno = EINTR; return -1; }
        sup_state("suspend");
        if (curline >= nlines) { sim_log("\"e\":\"end\""); sim_exit(0); }
        char *l = lines[curline++];
        if (!strcmp(l, "batch")) { while (curline < nlines && strcmp(lines[curline], "end")) sup_cmd(lines[curline++]); curline++; }
        else sup_cmd(l);
    }
}
int sigsuspend(const sigset_t *s) { return wait_signal(set2mask(s), 0); }
int pause(void) { return wait_signal(sigmask_, 0); }
int sigwaitinfo(const sigset_t *restrict s, siginfo_t *restrict i) {
    int n = wait_signal(~set2mask(s), 1);
    if (n > 0 && i) { memset(i, 0, sizeof *i); i->si_signo = n; }
    return n;
}
int sigtimedwait(const sigset_t *restrict s, siginfo_t *restrict i, const struct timespec *restrict t) { (void)t; return sigwaitinfo(s, i); }
int sigwait(const sigset_t *restrict s, int *restrict n) { int r; do r = wait_signal(~set2mask(s), 1); while (r < 0); *n = r; return 0; }
pid_t wait(int *st) { return waitpid(-1, st, WNOHANG); }
pid_t wait3(int *st, int opt, struct rusage *r) { (void)r; return waitpid(-1, st, opt); }
pid_t wait4(pid_t p, int *st, int opt, struct rusage *r) { (void)r; return waitpid(p, st, opt); }
int dup2(int a, int b) { (void)a; return b; }
int setpriority(__priority_which_t w, id_t i, int p) { (void)w; (void)i; (void)p; return 0; }
void exit(int c) { if (supervisor) sup_state("exit"); sim_log("\"e\":\"exit\",\"code\":%d", c); fflush(NULL); sim_exit(0); for (;;) ; }
void abort(void) { sim_log("\"e\":\"crash\",\"sig\":6"); sim_exit(43); for (;;) ; }
unsigned alarm(unsigned s) { (void)s; return 0; }
unsigned sleep(unsigned s) { sim_log("\"e\":\"blocking\",\"call\":\"sleep\""); now_ms += s * 1000LL; return 0; }
int usleep(useconds_t s) { sim_log("\"e\":\"blocking\",\"call\":\"usleep\""); now_ms += s / 1000; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { (void)b; sim_log("\"e\":\"blocking\",\"call\":\"nanosleep\""); now_ms += a->tv_sec * 1000; return 0; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)e; (void)f; (void)l; (void)fn; abort(); }

/* ------------------------------------------------------------------ memory: counted, optionally replaced or failed */
static int fail_now(void) {
    alloc_no++;
    if (fail_n && alloc_no >= fail_at) { fail_n--; sim_log("\"e\":\"allocfailed\""); return 1; }
    return 0;
}
#ifdef SIM_HEAP
static int size_class(int n) { int c = 512; while (c < n) c *= 2; return c; }
void *__wrap_mem_pool_alloc(int n) {
    if (n <= 0) abort();
    if (started && fail_now()) return NULL;
    if (n > 16384) return NULL;
    live_mem++;
    /* a block is at least as large as asked for; callers may read one zero byte past the end when the class has room */
    return calloc(1, n < size_class(n) ? n + 1 : n);
}
int __wrap_mem_pool_free(void *p) { live_mem--; free(p); return 0; }
#else
void *__real_mem_pool_alloc(int n);
int __real_mem_pool_free(void *p);
void *__wrap_mem_pool_alloc(int n) {
    if (started && fail_now()) return NULL;
    void *p = __real_mem_pool_alloc(n);
    if (p) live_mem++;
    return p;
}
int __wrap_mem_pool_free(void *p) { live_mem--; return __real_mem_pool_free(p); }
#endif
void *__real_sys_alloc(int n);
void __real_sys_free(void *p);
void *__wrap_sys_alloc(int n) { if (started && fail_now()) return NULL; void *p = __real_sys_alloc(n); if (p) live_sys++; return p; }
void __wrap_sys_free(void *p) { if (p) live_sys--; __real_sys_free(p); }
SSL *__wrap_SSL_new(SSL_CTX *c) { SSL *s = __real_SSL_new(c); if (s) live_ssl++; return s; }
void __wrap_SSL_free(SSL *s) { if (s) live_ssl--; __real_SSL_free(s); }

/* ------------------------------------------------------------------ deterministic randomness for OpenSSL */
static uint64_t rseed = 0x1234567;
static int d_bytes(unsigned char *b, int n) { int i; for (i = 0; i < n; i++) { rseed = rseed * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = rseed >> 40; } return 1; }
static int d_status(void) { return 1; }

#include <sys/auxv.h>
int main(int argc, char **argv) {
    /* sim ROOT SCRIPT OUT [sup [childAt]] [args...] */
    static char *av[] = {"s5-under-simulation", NULL, NULL, NULL};
    static char a0[64] = "s5-under-simulation", a1[64];
    static RAND_METHOD rm;
    int ac = 1;
    struct sigaction sa;
    static char stk[65536];
    stack_t ss = {.ss_sp = stk, .ss_size = sizeof stk};
    if (argc < 4) return 3;
    snprintf(root, sizeof root, "%s", argv[1]);
    out = fopen(argv[3], "w");
    if (!out) return 3;
    setvbuf(out, NULL, _IOFBF, 1 << 16);
    load_script(argv[2]);
    if (nlines && !strncmp(lines[0], "epoch ", 6)) now_ms = t0_ms = atoll(lines[0] + 6);
    if (argc > 4 && !strcmp(argv[4], "sup")) { supervisor = 1; if (argc > 5) child_at = atoi(argv[5]); if (argc > 6) { snprintf(a1, sizeof a1, "%s", argv[6]); } }
    memset(&sa, 0, sizeof sa);
    syscall(SYS_sigaltstack, &ss, NULL);
    {
        int (*rsa)(int, const struct sigaction *, struct sigaction *) = dlsym(RTLD_NEXT, "sigaction");
        sa.sa_handler = on_hang; rsa(SIGPROF, &sa, NULL);
#ifndef SIM_HEAP
        sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
        rsa(SIGSEGV, &sa, NULL); rsa(SIGBUS, &sa, NULL); rsa(SIGFPE, &sa, NULL); rsa(SIGILL, &sa, NULL);
#endif
    }
    rm.bytes = d_bytes; rm.pseudorand = d_bytes; rm.status = d_status;
    RAND_set_rand_method(&rm);
    sem_init(&job_go, 0, 0); sem_init(&job_done, 0, 0);
    pthread_create(&actor_thr, NULL, actor_main, NULL);
    if (!supervisor || child_at) on_actor_thread(mk_ctx, NULL);
    ready = 1;
    main_thr = pthread_self();
    /* what arrives while the program starts */
    while (supervisor && curline < nlines && (!strncmp(lines[curline], "inject ", 7) || !strncmp(lines[curline], "forkfail ", 9))) sup_cmd(lines[curline++]);
    watchdog(20);
    live_mem = live_sys = live_ssl = open_files = 0;
    /* argv strings must be contiguous and writable */
    av[0] = a0;
    if (a1[0]) { av[1] = a1; ac = 2; }
    int rc = s5_main(ac, av);
    if (supervisor) sup_state("exit");
    sim_log("\"e\":\"exit\",\"code\":%d", rc);
    sim_exit(0);
    return 0;
}
