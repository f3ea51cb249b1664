/* In-memory stand-in for libxcm.so.0, used only by the checks in /verif.
 *
 * It implements the part of the XCM API that paf/xcm.py binds, on endpoints
 * kept in memory, plus stub_* functions by which the harness owns every source
 * of nondeterminism of the transport: message arrival, peer departure, send
 * windows (EAGAIN), spurious wake-ups and failures of individual calls.
 * Misuse of the API (unknown or closed handles, double close, a blocking call
 * that would never return, bad attribute maps) is recorded.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXEP 4096
#define MAXMAP 4096
#define MAXMSG 65535
#define FD_BASE 100000
#define FD_NUM 2048
#define HANDLE_BASE 0x700000000000ULL
#define MAP_BASE 0x600000000000ULL

enum { K_FREE, K_SERVER, K_CONN };
enum { OP_CONNECT, OP_SERVER, OP_ACCEPT, OP_SEND, OP_RECEIVE, OP_FINISH,
       OP_GET, OP_SET, OP_AWAIT, OP_FD, OP_CLOSE, OP_BLOCKING, OP_NUM };

struct attr { char name[64]; int type; char sval[512]; int64_t ival; int len;
              struct attr *next; };
struct msg { struct msg *next; int len; char data[]; };

struct ep {
    int kind;
    uint64_t handle;     /* 0: driver-owned endpoint */
    int fd;
    bool open;           /* handle not yet closed */
    int peer;            /* endpoint index, or -1 */
    int tag;             /* harness label */
    struct msg *rx_head, *rx_tail;
    int rx_count;
    long rx_total;
    bool peer_closed;    /* orderly close by peer */
    int err;             /* reset errno, 0 if none */
    int cap;             /* room in this endpoint's rx queue; -1 unlimited */
    int cond;
    bool blocking;
    char addr[256];      /* server: bound address; conn: remote address */
    char laddr[256];
    char transport[16];
    unsigned char ski[64];
    int ski_len;         /* -1: not available */
    bool keepalive;
    struct attr *attrs;
    int pend[256];       /* server: pending connections */
    int npend;
    int spurious;
    /* traffic towards this endpoint is only visible once released */
    bool hold;
    int avail;           /* messages released */
    bool end_avail;      /* the end of the connection is released, too */
};

static bool hold_new;    /* for connections to come */
static bool has_msg(struct ep *e)
{ return e->rx_head && (!e->hold || e->avail > 0); }
static bool has_end(struct ep *e)
{ return (e->peer_closed || e->err) && (!e->hold || e->end_avail); }
static void taken(struct ep *e) { if (e->hold) e->avail--; }

static struct ep eps[MAXEP];
static int nep;
static struct { uint64_t handle; bool live; struct attr *attrs; } maps[MAXMAP];
static int nmap;
static uint64_t next_handle = HANDLE_BASE, epoch_handle = HANDLE_BASE;
static uint64_t next_map = MAP_BASE, epoch_map = MAP_BASE;
static char fd_used[FD_NUM];
static long misuse; static char misuse_txt[512];
static int fail_errno[OP_NUM], fail_skip[OP_NUM], fail_count[OP_NUM];
static long calls[OP_NUM];
static long double_close;
static int finish_again;
static long closes;

/* an override of what attr_get reports */
static int over_fd = -1;
static int over_type = -1, over_len; static char over_data[8193];

/* record of the calls made, on demand */
struct call { int op, ep, err; long rc; int64_t ival; char text[2048]; };
static struct call log_[256];
static int nlog, logging_;
static int raise_in, raise_signo;   /* a signal during some call */

static struct call *note(int op, int ep, long rc)
{
    static struct call dummy;
    int e = errno;
    struct call *c = &dummy;
    if (logging_ && nlog < 256) c = &log_[nlog++];
    c->op = op; c->ep = ep; c->rc = rc; c->err = rc < 0 ? e : 0;
    c->ival = 0; c->text[0] = 0;
    if (raise_in > 0 && --raise_in == 0) raise(raise_signo);
    errno = e;
    return c;
}

static void bad(const char *what, uint64_t h)
{
    if (misuse++ == 0)
        snprintf(misuse_txt, sizeof misuse_txt, "%s (handle %llx)", what,
                 (unsigned long long)h);
}

static void attrs_free(struct attr *a)
{ while (a) { struct attr *n = a->next; free(a); a = n; } }

static struct attr *attrs_copy(struct attr *a)
{
    struct attr *out = NULL, **tail = &out;
    for (; a; a = a->next) {
        struct attr *c = malloc(sizeof *c); *c = *a; c->next = NULL;
        *tail = c; tail = &c->next;
    }
    return out;
}

static struct attr *attr_find(struct attr *a, const char *name)
{ for (; a; a = a->next) if (!strcmp(a->name, name)) return a; return NULL; }

static struct attr *attr_put(struct attr **list, const char *name)
{
    struct attr *a = attr_find(*list, name);
    if (!a) {
        struct attr **t = list; while (*t) t = &(*t)->next;
        a = calloc(1, sizeof *a);
        snprintf(a->name, sizeof a->name, "%s", name);
        *t = a;
    }
    return a;
}

static void rx_clear(struct ep *e)
{
    while (e->rx_head) { struct msg *n = e->rx_head->next; free(e->rx_head); e->rx_head = n; }
    e->rx_tail = NULL; e->rx_count = 0;
}

void stub_reset(void)
{
    for (int i = 0; i < nep; i++) { rx_clear(&eps[i]); attrs_free(eps[i].attrs); }
    memset(eps, 0, sizeof(struct ep) * (nep ? nep : 1));
    nep = 0;
    for (int i = 0; i < nmap; i++) attrs_free(maps[i].attrs);
    memset(maps, 0, sizeof maps[0] * (nmap ? nmap : 1));
    nmap = 0;
    epoch_handle = next_handle; epoch_map = next_map;
    memset(fd_used, 0, sizeof fd_used);
    misuse = 0; misuse_txt[0] = 0; double_close = 0; closes = 0;
    memset(fail_errno, 0, sizeof fail_errno);
    memset(fail_skip, 0, sizeof fail_skip);
    memset(fail_count, 0, sizeof fail_count);
    memset(calls, 0, sizeof calls);
    finish_again = 0; hold_new = false;
    nlog = 0; logging_ = 0; over_type = -1; over_fd = -1; raise_in = 0;
}

static int ep_new(int kind)
{
    if (nep == MAXEP) abort();
    struct ep *e = &eps[nep];
    memset(e, 0, sizeof *e);
    e->kind = kind; e->peer = -1; e->cap = -1; e->ski_len = -1; e->fd = -1;
    e->blocking = true; e->tag = -1; e->keepalive = true;
    return nep++;
}

static int fd_alloc(void)
{
    for (int i = 0; i < FD_NUM; i++) if (!fd_used[i]) { fd_used[i] = 1; return FD_BASE + i; }
    abort();
}

static void ep_open(int i)
{
    eps[i].handle = next_handle; next_handle += 16;
    eps[i].open = true;
    eps[i].fd = fd_alloc();
}

static struct ep *lookup(void *h, const char *what)
{
    uint64_t v = (uint64_t)h;
    for (int i = 0; i < nep; i++)
        if (eps[i].handle && eps[i].handle == v) {
            if (!eps[i].open) { bad(what, v); return NULL; }
            return &eps[i];
        }
    if (!(v >= HANDLE_BASE && v < epoch_handle)) bad(what, v);
    return NULL;
}

static bool injected(int op)
{
    calls[op]++;
    if (fail_count[op] > 0) {
        if (fail_skip[op] > 0) { fail_skip[op]--; return false; }
        fail_count[op]--;
        errno = fail_errno[op];
        return true;
    }
    return false;
}

void stub_fail(int op, int err, int skip, int count)
{ fail_errno[op] = err; fail_skip[op] = skip; fail_count[op] = count; }
long stub_calls(int op) { return calls[op]; }
void stub_finish_again(int n) { finish_again = n; }

static const char *transport_of(const char *addr, char *out)
{
    size_t n = strcspn(addr, ":"); if (n > 15) n = 15;
    memcpy(out, addr, n); out[n] = 0; return out;
}

static struct attr *map_attrs(void *m, const char *what)
{
    if (!m) return NULL;
    uint64_t v = (uint64_t)m;
    for (int i = 0; i < nmap; i++)
        if (maps[i].handle == v) {
            if (!maps[i].live) { bad(what, v); return NULL; }
            return maps[i].attrs;
        }
    bad(what, v);
    return NULL;
}

static int server_lookup(const char *addr)
{
    for (int i = 0; i < nep; i++)
        if (eps[i].kind == K_SERVER && eps[i].open && !strcmp(eps[i].addr, addr)) return i;
    return -1;
}

static void apply_attrs(struct ep *e)
{
    struct attr *b = attr_find(e->attrs, "xcm.blocking");
    if (b) e->blocking = b->ival;
    struct attr *k = attr_find(e->attrs, "tcp.keepalive");
    if (k) e->keepalive = k->ival;
}

/* ---- XCM API ------------------------------------------------------- */

static void *do_server(const char *addr, void *m)
{
    struct attr *a = map_attrs(m, "server: bad attribute map");
    if (injected(OP_SERVER)) return NULL;
    if (server_lookup(addr) >= 0) { errno = EADDRINUSE; return NULL; }
    int i = ep_new(K_SERVER);
    snprintf(eps[i].addr, sizeof eps[i].addr, "%s", addr);
    transport_of(addr, eps[i].transport);
    eps[i].attrs = attrs_copy(a);
    apply_attrs(&eps[i]);
    ep_open(i);
    return (void *)eps[i].handle;
}

#pragma GCC diagnostic ignored "-Wrestrict"
static int pair_new(int srv, const char *remote, int *client_side)
{
    int c = ep_new(K_CONN), s = ep_new(K_CONN);
    eps[c].peer = s; eps[s].peer = c;
    snprintf(eps[s].addr, sizeof eps[s].addr, "%s", remote);
    snprintf(eps[s].laddr, sizeof eps[s].laddr, "%s", eps[srv].addr);
    snprintf(eps[c].addr, sizeof eps[c].addr, "%s", eps[srv].addr);
    snprintf(eps[c].laddr, sizeof eps[c].laddr, "%s", remote);
    transport_of(remote, eps[s].transport);
    transport_of(eps[srv].addr, eps[c].transport);
    if (eps[srv].npend == 256) abort();
    eps[srv].pend[eps[srv].npend++] = s;
    *client_side = c;
    return s;
}

static void *do_connect(const char *addr, void *m)
{
    struct attr *a = map_attrs(m, "connect: bad attribute map");
    if (injected(OP_CONNECT)) return NULL;
    int srv = server_lookup(addr);
    if (srv < 0) { errno = ECONNREFUSED; return NULL; }
    char remote[300]; char tp[16];
    snprintf(remote, sizeof remote, "%s:127.0.0.1:%d", transport_of(addr, tp), 40000 + nep);
    if (!strcmp(tp, "ux")) snprintf(remote, sizeof remote, "ux:client%d", nep);
    int c, s = pair_new(srv, remote, &c);
    eps[c].hold = eps[s].hold = hold_new;
    eps[c].attrs = attrs_copy(a);
    apply_attrs(&eps[c]);
    ep_open(c);
    return (void *)eps[c].handle;
}

static void *do_accept(void *h, void *m)
{
    struct attr *a = map_attrs(m, "accept: bad attribute map");
    struct ep *e = lookup(h, "accept on closed or unknown socket");
    if (!e) { errno = EBADF; return NULL; }
    if (e->kind != K_SERVER) { bad("accept on connection socket", (uint64_t)h); errno = EINVAL; return NULL; }
    if (injected(OP_ACCEPT)) {
        if (e->npend > 0 && errno == ECONNABORTED) {
            /* the pending connection is consumed */
            int c = e->pend[0];
            memmove(e->pend, e->pend + 1, sizeof(int) * --e->npend);
            eps[eps[c].peer].peer_closed = true; eps[c].peer_closed = true;
            errno = ECONNABORTED;
        }
        return NULL;
    }
    if (e->npend == 0) {
        if (e->blocking) bad("accept would block forever", (uint64_t)h);
        errno = EAGAIN; return NULL;
    }
    int s = e->pend[0];
    memmove(e->pend, e->pend + 1, sizeof(int) * --e->npend);
    eps[s].blocking = e->blocking;
    eps[s].attrs = attrs_copy(a);
    apply_attrs(&eps[s]);
    ep_open(s);
    return (void *)eps[s].handle;
}

static void do_close(struct ep *e)
{
    e->open = false;
    closes++;
    if (e->fd >= FD_BASE) fd_used[e->fd - FD_BASE] = 0;
    e->fd = -1;
    if (e->kind == K_CONN && e->peer >= 0) eps[e->peer].peer_closed = true;
    if (e->kind == K_SERVER)
        for (int i = 0; i < e->npend; i++) {
            int s = e->pend[i];
            eps[eps[s].peer].err = ECONNRESET;
            eps[s].peer_closed = true;
        }
}

static int xdo_close(void *h)
{
    if (!h) return 0;
    calls[OP_CLOSE]++;
    uint64_t v = (uint64_t)h;
    if (v >= HANDLE_BASE && v < epoch_handle) return 0; /* left over from an earlier episode */
    for (int i = 0; i < nep; i++)
        if (eps[i].handle == v && v) {
            if (!eps[i].open) { double_close++; bad("socket closed twice", v); errno = EBADF; return -1; }
            do_close(&eps[i]);
            return 0;
        }
    bad("close of unknown socket", v);
    errno = EBADF;
    return -1;
}

static int do_finish(void *h)
{
    struct ep *e = lookup(h, "finish on closed or unknown socket");
    if (!e) { errno = EBADF; return -1; }
    if (injected(OP_FINISH)) return -1;
    if (finish_again > 0) { finish_again--; errno = EAGAIN; return -1; }
    return 0;
}

static int do_send(void *h, const void *buf, size_t len)
{
    struct ep *e = lookup(h, "send on closed or unknown socket");
    if (!e) { errno = EBADF; return -1; }
    if (e->kind != K_CONN) { bad("send on server socket", (uint64_t)h); errno = EINVAL; return -1; }
    if (injected(OP_SEND)) return -1;
    if (len > MAXMSG) { errno = EMSGSIZE; return -1; }
    if (len == 0) { errno = EINVAL; return -1; }
    if (has_end(e)) { errno = e->err ? e->err : EPIPE; return -1; }
    struct ep *p = &eps[e->peer];
    if (p->cap >= 0 && p->rx_count >= p->cap) {
        if (e->blocking) bad("send would block", (uint64_t)h);
        errno = EAGAIN; return -1;
    }
    struct msg *m = malloc(sizeof *m + len);
    m->next = NULL; m->len = len; memcpy(m->data, buf, len);
    if (p->rx_tail) p->rx_tail->next = m; else p->rx_head = m;
    p->rx_tail = m; p->rx_count++; p->rx_total++;
    return 0;
}

static int do_receive(void *h, void *buf, size_t cap)
{
    struct ep *e = lookup(h, "receive on closed or unknown socket");
    if (!e) { errno = EBADF; return -1; }
    if (e->kind != K_CONN) { bad("receive on server socket", (uint64_t)h); errno = EINVAL; return -1; }
    if (injected(OP_RECEIVE)) return -1;
    if (e->err && has_end(e)) { errno = e->err; return -1; }
    if (has_msg(e)) {
        struct msg *m = e->rx_head;
        int n = m->len;
        if ((size_t)n > cap) { n = cap; bad("received message truncated", (uint64_t)h); }
        memcpy(buf, m->data, n);
        e->rx_head = m->next; if (!e->rx_head) e->rx_tail = NULL;
        e->rx_count--;
        taken(e);
        free(m);
        return n;
    }
    if (e->peer_closed && has_end(e)) return 0;
    if (e->blocking) bad("receive would block", (uint64_t)h);
    errno = EAGAIN;
    return -1;
}

static int do_await(void *h, int cond)
{
    struct ep *e = lookup(h, "await on closed or unknown socket");
    if (!e) { errno = EBADF; return -1; }
    if (injected(OP_AWAIT)) return -1;
    if ((e->kind == K_SERVER && (cond & ~4)) || (e->kind == K_CONN && (cond & ~3))) { errno = EINVAL; return -1; }
    e->cond = cond;
    return e->fd;
}

static int do_fd(void *h)
{
    struct ep *e = lookup(h, "fd of closed or unknown socket");
    if (!e) { errno = EBADF; return -1; }
    if (injected(OP_FD)) return -1;
    if (over_fd >= 0) { int f = over_fd; over_fd = -1; return f; }
    return e->fd;
}

int xcm_want(void *h, int cond, int *fds, int *events, size_t cap)
{ (void)h; (void)cond; (void)fds; (void)events; (void)cap; errno = ENOTSUP; return -1; }

static int do_set_blocking(void *h, bool v)
{
    struct ep *e = lookup(h, "set_blocking on closed or unknown socket");
    if (!e) { errno = EBADF; return -1; }
    if (injected(OP_BLOCKING)) return -1;
    e->blocking = v; return 0;
}

bool xcm_is_blocking(void *h)
{
    struct ep *e = lookup(h, "is_blocking on closed or unknown socket");
    return e ? e->blocking : false;
}

static int put_str(int *type, void *v, size_t cap, const char *s)
{
    size_t n = strlen(s) + 1;
    if (n > cap) { errno = EOVERFLOW; return -1; }
    if (type) *type = 3;
    memcpy(v, s, n); return n;
}

static int do_attr_get(void *h, const char *name, int *type, void *v, size_t cap)
{
    struct ep *e = lookup(h, "attr_get on closed or unknown socket");
    if (!e) { errno = EBADF; return -1; }
    if (injected(OP_GET)) return -1;
    if (over_type >= 0) {
        if ((size_t)over_len > cap) { errno = EOVERFLOW; return -1; }
        if (type) *type = over_type;
        memcpy(v, over_data, over_len); over_type = -1;
        return over_len;
    }
    struct attr *a = attr_find(e->attrs, name);
    if (!strcmp(name, "xcm.remote_addr")) return put_str(type, v, cap, e->addr);
    if (!strcmp(name, "xcm.local_addr")) return put_str(type, v, cap, e->laddr);
    if (!strcmp(name, "xcm.transport")) return put_str(type, v, cap, e->transport);
    if (!strcmp(name, "tls.peer_subject_key_id")) {
        if (strcmp(e->transport, "tls") || e->ski_len < 0) { errno = ENOENT; return -1; }
        if ((size_t)e->ski_len > cap) { errno = EOVERFLOW; return -1; }
        if (type) *type = 4;
        memcpy(v, e->ski, e->ski_len); return e->ski_len;
    }
    if (!strcmp(name, "tcp.keepalive")) {
        if (strcmp(e->transport, "tls") && strcmp(e->transport, "tcp")) { errno = ENOENT; return -1; }
        if (type) *type = 1;
        *(bool *)v = e->keepalive; return sizeof(bool);
    }
    if (!a) { errno = ENOENT; return -1; }
    if (type) *type = a->type;
    switch (a->type) {
    case 1: *(bool *)v = a->ival; return sizeof(bool);
    case 2: if (cap < 8) { errno = EOVERFLOW; return -1; } memcpy(v, &a->ival, 8); return 8;
    case 3: return put_str(type, v, cap, a->sval);
    case 4: if ((size_t)a->len > cap) { errno = EOVERFLOW; return -1; } memcpy(v, a->sval, a->len); return a->len;
    default: memcpy(v, a->sval, a->len); return a->len;
    }
}

static int set_common(void *h, const char *name, struct attr **out)
{
    struct ep *e = lookup(h, "attr_set on closed or unknown socket");
    if (!e) { errno = EBADF; return -1; }
    if (injected(OP_SET)) return -1;
    if (!strncmp(name, "tcp.", 4) && strcmp(e->transport, "tls") && strcmp(e->transport, "tcp"))
    { errno = ENOENT; return -1; }
    *out = attr_put(&e->attrs, name);
    return 0;
}

static int do_set_bool(void *h, const char *name, bool v)
{
    struct attr *a; if (set_common(h, name, &a) < 0) return -1;
    a->type = 1; a->ival = v;
    struct ep *e = lookup(h, ""); apply_attrs(e);
    return 0;
}
static int do_set_int64(void *h, const char *name, int64_t v)
{ struct attr *a; if (set_common(h, name, &a) < 0) return -1; a->type = 2; a->ival = v; return 0; }
static int do_set_str(void *h, const char *name, const char *v)
{ struct attr *a; if (set_common(h, name, &a) < 0) return -1; a->type = 3; snprintf(a->sval, sizeof a->sval, "%s", v); return 0; }

void *xcm_attr_map_create(void)
{
    if (nmap == MAXMAP) { nmap = 0; epoch_map = next_map; }
    maps[nmap].handle = next_map; next_map += 16;
    maps[nmap].live = true; maps[nmap].attrs = NULL;
    return (void *)maps[nmap++].handle;
}

void xcm_attr_map_destroy(void *m)
{
    if (!m) return;
    uint64_t v = (uint64_t)m;
    if (v >= MAP_BASE && v < epoch_map) return;
    for (int i = 0; i < nmap; i++)
        if (maps[i].handle == v) {
            if (!maps[i].live) { bad("attribute map destroyed twice", v); return; }
            maps[i].live = false; attrs_free(maps[i].attrs); maps[i].attrs = NULL;
            return;
        }
    bad("destroy of unknown attribute map", v);
}

static struct attr *map_put(void *m, const char *name)
{
    uint64_t v = (uint64_t)m;
    for (int i = 0; i < nmap; i++)
        if (maps[i].handle == v && maps[i].live) return attr_put(&maps[i].attrs, name);
    bad("add to unknown attribute map", v);
    static struct attr dummy; return &dummy;
}
void xcm_attr_map_add_bool(void *m, const char *n, bool v)
{ struct attr *a = map_put(m, n); a->type = 1; a->ival = v; }
void xcm_attr_map_add_int64(void *m, const char *n, int64_t v)
{ struct attr *a = map_put(m, n); a->type = 2; a->ival = v; }
void xcm_attr_map_add_str(void *m, const char *n, const char *v)
{ struct attr *a = map_put(m, n); a->type = 3; snprintf(a->sval, sizeof a->sval, "%s", v); }

/* ---- the exported functions ------------------------------------------ */

static int idx(void *h)
{
    for (int i = 0; i < nep; i++)
        if (eps[i].handle && eps[i].handle == (uint64_t)h) return i;
    return -1;
}

static void put_attrs(struct call *c, void *m)
{
    int n = 0;
    struct attr *a = map_attrs(m, "bad attribute map");
    for (; a && n < (int)sizeof c->text - 600; a = a->next) {
        if (a->type == 1) n += sprintf(c->text + n, "%s=bool:%d\n", a->name, (int)a->ival);
        else if (a->type == 2) n += sprintf(c->text + n, "%s=int:%lld\n", a->name, (long long)a->ival);
        else n += sprintf(c->text + n, "%s=str:%s\n", a->name, a->sval);
    }
}

#define MADE(op, h) struct call *c = note(op, (h) ? idx(h) : -1, (h) ? 0 : -1)
void *xcm_server_a(const char *addr, void *m)
{ void *h = do_server(addr, m); MADE(OP_SERVER, h); int e = errno; put_attrs(c, m);
  sprintf(c->text + strlen(c->text), "@%.255s", addr); errno = e; return h; }
void *xcm_connect_a(const char *addr, void *m)
{ void *h = do_connect(addr, m); MADE(OP_CONNECT, h); int e = errno; put_attrs(c, m);
  sprintf(c->text + strlen(c->text), "@%.255s", addr); errno = e; return h; }
void *xcm_accept_a(void *s, void *m)
{ int si = idx(s); void *h = do_accept(s, m); MADE(OP_ACCEPT, h); int e = errno; put_attrs(c, m);
  c->ival = si; errno = e; return h; }
int xcm_close(void *h) { int i = idx(h); int rc = xdo_close(h); note(OP_CLOSE, i, rc); return rc; }
int xcm_finish(void *h) { int rc = do_finish(h); note(OP_FINISH, idx(h), rc); return rc; }
int xcm_send(void *h, const void *b, size_t n)
{ int rc = do_send(h, b, n); note(OP_SEND, idx(h), rc)->ival = n; return rc; }
int xcm_receive(void *h, void *b, size_t n)
{ int rc = do_receive(h, b, n); note(OP_RECEIVE, idx(h), rc)->ival = n; return rc; }
int xcm_await(void *h, int cond)
{ int rc = do_await(h, cond); note(OP_AWAIT, idx(h), rc)->ival = cond; return rc; }
int xcm_fd(void *h) { int rc = do_fd(h); note(OP_FD, idx(h), rc); return rc; }
int xcm_set_blocking(void *h, bool v)
{ int rc = do_set_blocking(h, v); note(OP_BLOCKING, idx(h), rc)->ival = v; return rc; }
int xcm_attr_get(void *h, const char *n, int *t, void *v, size_t cap)
{ int rc = do_attr_get(h, n, t, v, cap); sprintf(note(OP_GET, idx(h), rc)->text, "%.63s", n); return rc; }
int xcm_attr_set_bool(void *h, const char *n, bool v)
{ int rc = do_set_bool(h, n, v); struct call *c = note(OP_SET, idx(h), rc);
  sprintf(c->text, "%.63s=bool:%d", n, (int)v); return rc; }
int xcm_attr_set_int64(void *h, const char *n, int64_t v)
{ int rc = do_set_int64(h, n, v); struct call *c = note(OP_SET, idx(h), rc);
  sprintf(c->text, "%.63s=int:%lld", n, (long long)v); return rc; }
int xcm_attr_set_str(void *h, const char *n, const char *v)
{ int rc = do_set_str(h, n, v); struct call *c = note(OP_SET, idx(h), rc);
  sprintf(c->text, "%.63s=str:%.511s", n, v); return rc; }

void stub_log(int on) { logging_ = on; nlog = 0; }
int stub_nlog(void) { return nlog; }
void *stub_log_at(int i) { return &log_[i]; }
void stub_fd_override(int fd) { over_fd = fd; }
void stub_get_override(int type, const void *d, int n)
{ over_type = type; over_len = n; if (n > 0) memcpy(over_data, d, n); }

/* ---- harness side --------------------------------------------------- */

int stub_find_server(const char *addr) { return server_lookup(addr); }

int stub_server_new(const char *addr)   /* server scripted by the harness */
{
    int i = ep_new(K_SERVER);
    snprintf(eps[i].addr, sizeof eps[i].addr, "%s", addr);
    transport_of(addr, eps[i].transport);
    eps[i].open = true; eps[i].handle = 0;
    return i;
}

int stub_server_take(int i)             /* scripted accept; returns its endpoint */
{
    if (eps[i].npend == 0) return -1;
    int s = eps[i].pend[0];
    memmove(eps[i].pend, eps[i].pend + 1, sizeof(int) * --eps[i].npend);
    return s;
}

int stub_connect(const char *addr, const char *remote, const void *ski, int ski_len, int tag)
{
    int srv = server_lookup(addr);
    if (srv < 0) return -1;
    int c; int s = pair_new(srv, remote, &c);
    if (ski_len > 64) abort();
    eps[s].ski_len = ski_len;
    if (ski_len > 0) memcpy(eps[s].ski, ski, ski_len);
    eps[s].tag = tag; eps[c].tag = tag;
    return c;
}

/* driver endpoint c sends to its peer */
int stub_send(int c, const void *buf, int len)
{
    struct ep *p = &eps[eps[c].peer];
    if (p->handle && !p->open) return -1;
    struct msg *m = malloc(sizeof *m + len);
    m->next = NULL; m->len = len; memcpy(m->data, buf, len);
    if (p->rx_tail) p->rx_tail->next = m; else p->rx_head = m;
    p->rx_tail = m; p->rx_count++; p->rx_total++;
    return 0;
}

int stub_recv_len(int c) { return eps[c].rx_head ? eps[c].rx_head->len : -1; }
int stub_recv(int c, void *buf, int cap)
{
    struct ep *e = &eps[c];
    if (!e->rx_head) return -1;
    struct msg *m = e->rx_head; int n = m->len < cap ? m->len : cap;
    memcpy(buf, m->data, n);
    e->rx_head = m->next; if (!e->rx_head) e->rx_tail = NULL;
    e->rx_count--; free(m); return n;
}
void stub_close(int c) { eps[eps[c].peer].peer_closed = true; rx_clear(&eps[c]); eps[c].cap = -1; }
void stub_abort(int c, int err) { struct ep *p = &eps[eps[c].peer]; p->err = err; rx_clear(p); rx_clear(&eps[c]); eps[c].cap = -1; }
void stub_set_cap(int c, int cap) { eps[c].cap = cap; }
void stub_set_tag(int c, int tag) { eps[c].tag = tag; }
int stub_closed_by_peer(int c) { return eps[c].peer_closed || eps[c].err; }
void stub_hold_new(int on) { hold_new = on; }
int stub_is_held(int c) { return eps[c].hold; }
/* what is on its way to c: messages, +1 for the end of the connection */
int stub_underway(int c)
{
    struct ep *e = &eps[c];
    if (!e->hold || (e->handle && !e->open)) return 0;
    return e->rx_count - e->avail +
        ((e->peer_closed || e->err) && !e->end_avail);
}
void stub_release(int c)
{
    struct ep *e = &eps[c];
    if (e->avail < e->rx_count) e->avail++; else e->end_avail = true;
}
int stub_err(int c) { return eps[c].err; }
int stub_rx_count(int c) { return eps[c].rx_count; }
int stub_peer_rx_count(int c) { return eps[eps[c].peer].rx_count; }
int stub_pending(int i) { return eps[i].npend; }
int stub_accepted(int c) { return eps[eps[c].peer].handle != 0; }
int stub_peer_open(int c) { return eps[eps[c].peer].open; }
int stub_peer_of(int c) { return eps[c].peer; }
int stub_peer_cond(int c) { return eps[eps[c].peer].cond; }
int stub_ep_cond(int i) { return eps[i].cond; }
int stub_ep_blocking(int i) { return eps[i].blocking; }
int stub_peer_keepalive(int c) { return eps[eps[c].peer].keepalive; }
void stub_spurious(int c) { eps[eps[c].peer].spurious++; }
void stub_spurious_ep(int i) { eps[i].spurious++; }

static bool ready(struct ep *e)
{
    if (!e->open || e->fd < 0) return false;
    if (e->spurious > 0) return true;
    if (e->kind == K_SERVER) return (e->cond & 4) && e->npend > 0;
    if ((e->cond & 1) && (has_msg(e) || has_end(e))) return true;
    if (e->cond & 2) {
        if (has_end(e)) return true;
        struct ep *p = &eps[e->peer];
        if (p->cap < 0 || p->rx_count < p->cap) return true;
    }
    return false;
}

int stub_ready(int *fds, int cap)
{
    int n = 0;
    for (int i = 0; i < nep && n < cap; i++)
        if (ready(&eps[i])) { fds[n++] = eps[i].fd; if (eps[i].spurious > 0) eps[i].spurious--; }
    return n;
}

int stub_fd_ready(int fd)
{
    for (int i = 0; i < nep; i++)
        if (eps[i].open && eps[i].fd == fd) return ready(&eps[i]);
    return 0;
}
int stub_fd_ep(int fd)
{
    for (int i = 0; i < nep; i++)
        if (eps[i].open && eps[i].fd == fd) return i;
    return -1;
}
int stub_fd_tag(int fd)
{
    for (int i = 0; i < nep; i++)
        if (eps[i].open && eps[i].fd == fd) return eps[i].kind == K_SERVER ? -1000 - i : eps[i].tag;
    return -2;
}
int stub_handle_tag(uint64_t h)
{
    for (int i = 0; i < nep; i++)
        if (eps[i].handle == h) return eps[i].kind == K_SERVER ? -1000 - i : eps[i].tag;
    return -2;
}
int stub_handle_ep(uint64_t h)
{
    for (int i = 0; i < nep; i++) if (eps[i].handle == h) return i;
    return -1;
}
long stub_live(void) { long n = 0; for (int i = 0; i < nep; i++) if (eps[i].handle && eps[i].open) n++; return n; }
long stub_live_conns(void) { long n = 0; for (int i = 0; i < nep; i++) if (eps[i].handle && eps[i].open && eps[i].kind == K_CONN) n++; return n; }
long stub_live_maps(void) { long n = 0; for (int i = 0; i < nmap; i++) n += maps[i].live; return n; }
long stub_misuse(void) { return misuse; }
const char *stub_misuse_text(void) { return misuse_txt; }
void stub_misuse_clear(void) { misuse = 0; misuse_txt[0] = 0; }
int stub_num(void) { return nep; }

/* human-readable attribute list of an endpoint */
int stub_attrs(int i, char *out, int cap)
{
    int n = 0; out[0] = 0;
    for (struct attr *a = eps[i].attrs; a && n < cap - 700; a = a->next) {
        if (a->type == 1) n += snprintf(out + n, cap - n, "%s=bool:%d\n", a->name, (int)a->ival);
        else if (a->type == 2) n += snprintf(out + n, cap - n, "%s=int:%lld\n", a->name, (long long)a->ival);
        else n += snprintf(out + n, cap - n, "%s=str:%s\n", a->name, a->sval);
    }
    return n;
}
/* set an attribute of arbitrary type on an endpoint (for attr_get checks) */
void stub_attr_raw(int i, const char *name, int type, const void *v, int len, int64_t ival)
{
    struct attr *a = attr_put(&eps[i].attrs, name);
    a->type = type; a->ival = ival; a->len = len;
    if (v) { memcpy(a->sval, v, len); a->sval[len < 511 ? len : 511] = 0; }
}

void stub_raise(int in, int signo) { raise_in = in; raise_signo = signo; }
int stub_raise_left(void) { return raise_in; }

/* at process exit, what is left is reported */
__attribute__((destructor)) static void at_exit(void)
{
    const char *fn = getenv("VERIF_STUB_EXIT");
    if (!fn) return;
    FILE *f = fopen(fn, "w");
    if (!f) return;
    int servers = 0;
    for (int i = 0; i < nep; i++)
        if (eps[i].kind == K_SERVER && eps[i].handle && eps[i].open) servers++;
    fprintf(f, "%d %ld %ld %ld %ld\n", servers, stub_live(), calls[OP_SERVER],
            misuse, closes);
    fclose(f);
}
