/* Deterministic simulation of the operating system around the program under test. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <openssl/ssl.h>

#define FD0 1000
#define MAXFD 6000
#define MAXACT 4096
#define MAXKID 4096

typedef struct buf { unsigned char *d; size_t n, cap, off; } buf_t;

enum { S_FREE, S_LISTEN, S_STREAM, S_DGRAM, S_EPOLL };
enum { ST_NEW, ST_CONNECTING, ST_UP, ST_FAILED, ST_RESET };

struct actor;
typedef struct ep {
    int kind, fd, nonblock;
    uint32_t peer_ip; uint16_t peer_port; /* of a connected datagram socket */
    int st;
    int so_error;
    int port;              /* listener / bound port */
    buf_t rx;              /* bytes the program can read */
    int rxeof;
    int cut;               /* reset by the peer at this call of send or recv from now */
    long room;             /* bytes the program may still send, -1 = no limit */
    struct actor *act;
    /* accept queue (listener) */
    struct actor *pend[2048]; int npend;
    /* datagrams */
    struct dg { unsigned char *d; int n; uint32_t ip; uint16_t port; } dg[64]; int ndg;
    /* epoll registration */
    int reg; uint32_t mask; uint64_t data; int onlist; unsigned long seq;
} ep_t;

typedef struct rec { size_t wend; size_t n; unsigned char *d; long poff; } rec_t;

typedef struct actor {
    char name[32];
    int used, tls, server, client;      /* client: connects to the program */
    int port; uint32_t ip;
    ep_t *ep;                            /* NULL before accept / after close */
    int accepted, closed_by_sut, aborted, finned;
    SSL *ssl; int hs_done, hs_fail, close_seen, alert_sent;
    int hold, nohs;
    buf_t wire;                          /* produced by the actor, not delivered yet */
    size_t wire_total, wire_deliv;       /* running byte counts */
    rec_t *recs; int nrecs, caprecs, rec_i;
    buf_t in;                            /* wire bytes from the program, unprocessed */
    buf_t pend_plain;                    /* plaintext queued until the handshake is done */
    long out_off;                        /* pattern offset of the outgoing stream */
    int fin_after;                       /* fin once the wire queue is delivered */
    long room0; int cut0;
    int eof_logged;
    unsigned char qid[2];
    int resolver;                        /* datagram peer */
} actor_t;

void sim_log(const char *fmt, ...);
#endif
