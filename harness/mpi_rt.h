// The network: rank processes block in every communication call, the explorer (parent) decides which call completes next.
// A standard send may complete by buffering or wait for its receive (both are explored); a state in which progress is
// possible only by buffering is a potential deadlock.
#pragma once
#include <mpi.h>
#include <poll.h>
#include <sys/socket.h>
#include <deque>
#include "ref.h"
namespace net
{
enum Op { SEND, SSEND, RECV, ISEND, IRECV, WAIT, BARRIER, FINALIZE, ABORT, PROBE };
struct Req {
  int op, peer, tag, type, count, id, bytes;
  int touched;  // an earlier non-blocking send whose buffer has been changed (0: none)
};
struct Rep {
  int id, source, tag, bytes;
};
static int rank = 0, size = 1, fd = -1;  // in a rank process; fd < 0: single process
static bool inited = false, finalized = false;
static std::map<int, void *> irecv_buf;
static std::map<int, std::pair<const char *, std::string>> isend_buf;  // buffers of non-blocking sends not yet waited for
extern "C" void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
static int touched()
{
  for (auto &b : isend_buf)
    if ((__asan_region_is_poisoned && __asan_region_is_poisoned((void *)b.second.first, b.second.second.size())) || memcmp(b.second.first, b.second.second.data(), b.second.second.size())) {
      int id = b.first;
      isend_buf.erase(id);
      return id;
    }
  return 0;
}
static void io(int f, void *p, size_t n, bool wr)
{
  char *c = (char *)p;
  while (n) {
    ssize_t k = wr ? write(f, c, n) : read(f, c, n);
    if (k <= 0) _exit(44);  // the explorer gave up on this run
    c += k, n -= k;
  }
}
static Rep call(int op, int peer, int tag, int type, int count, int id, const void *out, void *in)
{
  if (fd < 0) mc::fail("communication with another process in a single-process program");
  if (!inited || finalized) mc::fail("communication outside MPI_Init..MPI_Finalize");
  if (count < 0) mc::fail("negative message size");
  Req q = {op, peer, tag, type, count, id, out ? count * (type & 255) : 0, touched()};
  io(fd, &q, sizeof q, true);
  if (q.bytes) io(fd, (void *)out, q.bytes, true);
  Rep r;
  io(fd, &r, sizeof r, false);
  if (r.bytes && in) io(fd, in, r.bytes, false);
  return r;
}
static void fill(MPI_Status *s, const Rep &r)
{
  if (s) s->MPI_SOURCE = r.source, s->MPI_TAG = r.tag, s->MPI_ERROR = 0, s->bytes = r.bytes;
}

// ---- explorer side ----
struct Msg {
  int src, dst, tag, type, count;
  std::string data;
  bool matched, sync, delivered;
};
struct Rcv {
  int rank, src, tag, type, count, msg;
  bool matched;
};
struct Rank {
  pid_t pid;
  int fd, st;
  bool exited, blocked, fin;
  Req req;
  int obj;                   // message or receive of the blocking call
  std::map<int, int> reqs;   // request id -> message (>= 0) or ~receive
  uint64_t hist;             // hash of everything completed so far
};
static uint64_t mix(uint64_t h, const void *p, size_t n)
{
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
  return h ^ (h >> 29);
}
struct Run {
  Rank r[2];
  std::vector<Msg> m;
  std::vector<Rcv> q;
  uint64_t messages = 0, bytes = 0;
  std::string name(int k) const
  {
    static const char *n[] = {"Send", "Ssend", "Recv", "Isend", "Irecv", "Wait", "Barrier", "Finalize", "Abort", "Probe"};
    if (r[k].exited) return "exited";
    char b[128];
    snprintf(b, sizeof b, "blocked in %s(peer %d, tag %d, %d x type %#x)", n[r[k].req.op], r[k].req.peer, r[k].req.tag, r[k].req.count, r[k].req.type);
    return b;
  }
  void reply(int k, int id, int src, int tag, const std::string &data)
  {
    Rep p = {id, src, tag, (int)data.size()};
    io(r[k].fd, &p, sizeof p, true);
    if (data.size()) io(r[k].fd, (void *)data.data(), data.size(), true);
  }
  int post_send(int k, const Req &a, const std::string &d, bool sync)
  {
    if (a.peer != 1 - k) mc::fail("rank %d sends to rank %d", k, a.peer);
    m.push_back({k, a.peer, a.tag, a.type, a.count, d, false, sync, false});
    ++messages, bytes += d.size();
    return m.size() - 1;
  }
  int post_recv(int k, const Req &a)
  {
    if (a.peer != 1 - k && a.peer != MPI_ANY_SOURCE) mc::fail("rank %d receives from rank %d", k, a.peer);
    q.push_back({k, a.peer, a.tag, a.type, a.count, -1, false});
    return q.size() - 1;
  }
  // let rank k run to its next blocking call
  void advance(int k)
  {
    Rank &x = r[k];
    while (!x.exited && !x.blocked) {
      struct pollfd p = {x.fd, POLLIN, 0};
      int n = poll(&p, 1, 120000);
      if (n == 0) mc::fail("rank %d neither communicates nor ends", k);
      Req a;
      ssize_t g = recv(x.fd, &a, sizeof a, MSG_WAITALL);
      if (g <= 0) {
        waitpid(x.pid, &x.st, 0);
        judge_status(x.st, k ? "the second process" : "the first process");
        x.exited = true;
        break;
      }
      std::string d(a.bytes, 0);
      if (a.bytes) io(x.fd, &d[0], a.bytes, false);
      x.req = a;
      if (a.touched && x.reqs.count(a.touched) && x.reqs[a.touched] >= 0 && !m[x.reqs[a.touched]].delivered)
        mc::fail("rank %d changes the buffer of a non-blocking send (tag %d) before the message is delivered", k, m[x.reqs[a.touched]].tag);
      switch (a.op) {
        case SEND: x.obj = post_send(k, a, d, false), x.blocked = true; break;
        case SSEND: x.obj = post_send(k, a, d, true), x.blocked = true; break;
        case RECV: x.obj = post_recv(k, a), x.blocked = true; break;
        case ISEND: {
          int id = x.reqs.size() + 1;
          x.reqs[id] = post_send(k, a, d, false);
          reply(k, id, 0, 0, "");
          break;
        }
        case IRECV: {
          int id = x.reqs.size() + 1;
          x.reqs[id] = ~post_recv(k, a);
          reply(k, id, 0, 0, "");
          break;
        }
        case WAIT: x.obj = x.reqs[a.id], x.blocked = true; break;
        case BARRIER:
        case PROBE: x.blocked = true; break;
        case FINALIZE: x.fin = true, reply(k, 0, 0, 0, ""); break;
        case ABORT: mc::fail("rank %d calls MPI_Abort", k);
      }
    }
    match();
  }
  void match()
  {
    for (auto &b : q)
      if (!b.matched)
        for (size_t i = 0; i < m.size(); ++i) {
          Msg &a = m[i];
          if (a.matched || a.dst != b.rank || (b.tag != MPI_ANY_TAG && b.tag != a.tag)) continue;
          if (a.type != b.type || a.count != b.count) mc::fail("message %zu (%d elements of type %#x, tag %d) is received as %d elements of type %#x", i, a.count, a.type, a.tag, b.count, b.type);
          a.matched = b.matched = true;
          b.msg = i;
          break;
        }
  }
  // the message a probe of rank k sees
  int probed(int k)
  {
    for (size_t i = 0; i < m.size(); ++i)
      if (!m[i].matched && m[i].dst == k && (r[k].req.tag == MPI_ANY_TAG || r[k].req.tag == m[i].tag)) return i;
    return -1;
  }
  // 0: cannot complete, 1: can complete, 2: only if the library buffers the message
  int can(int k)
  {
    Rank &x = r[k];
    if (x.exited || !x.blocked) return 0;
    if (x.req.op == BARRIER) return r[1 - k].blocked && r[1 - k].req.op == BARRIER;
    if (x.req.op == PROBE) return probed(k) >= 0;
    bool snd = x.req.op == SEND || x.req.op == SSEND || (x.req.op == WAIT && x.obj >= 0);
    int o = x.req.op == WAIT && x.obj < 0 ? ~x.obj : x.obj;
    if (snd) return m[o].matched ? 1 : m[o].sync ? 0 : 2;
    return q[o].matched;
  }
  void complete(int k)
  {
    Rank &x = r[k];
    x.hist = mix(x.hist, &x.req, sizeof x.req);
    if (x.req.op == BARRIER) {
      for (int j = 0; j < 2; ++j) r[j].hist = mix(r[j].hist, "barrier", 7), r[j].blocked = false, reply(j, 0, 0, 0, "");
      advance(0), advance(1);
      return;
    }
    x.blocked = false;
    if (x.req.op == PROBE) {
      const Msg &a = m[probed(k)];
      Rep p = {0, a.src, a.tag, (int)a.data.size()};
      io(x.fd, &p, sizeof p, true);
      advance(k);
      return;
    }
    bool snd = x.req.op == SEND || x.req.op == SSEND || (x.req.op == WAIT && x.obj >= 0);
    if (snd)
      reply(k, 0, 0, 0, "");
    else {
      Rcv &b = q[x.req.op == WAIT ? ~x.obj : x.obj];
      Msg &a = m[b.msg];
      x.hist = mix(x.hist, a.data.data(), a.data.size());
      reply(k, 0, a.src, a.tag, a.data);
      a.data.clear();
      a.delivered = true;
    }
    advance(k);
  }
  uint64_t state()
  {
    uint64_t h = mix(r[0].hist, &r[1].hist, 8);
    for (auto &a : m) {
      char c[2] = {(char)a.matched, (char)a.src};
      h = mix(h, c, 2);
    }
    for (int k = 0; k < 2; ++k) {
      char c[2] = {(char)r[k].exited, (char)r[k].blocked};
      h = mix(h, c, 2);
    }
    return h;
  }
};
static void start(Run &n, Entry e, const std::string *dirs, const std::vector<std::string> &args)
{
  for (int k = 0; k < 2; ++k) {
    int sp[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) _exit(3);
    pid_t p = fork();
    if (p == 0) {
      close(sp[0]);
      if (k) close(n.r[0].fd);
      rank = k, size = 2, fd = sp[1];
      become(e, dirs[k], args);
    }
    close(sp[1]);
    n.r[k].pid = p, n.r[k].fd = sp[0], n.r[k].exited = n.r[k].blocked = n.r[k].fin = false, n.r[k].hist = 1469598103934665603ull + k, n.r[k].reqs.clear();
  }
  n.advance(0), n.advance(1);
}
static void finish(Run &n)
{
  for (auto &a : n.m)
    if (!a.matched) mc::fail("a message of rank %d (tag %d, %d elements) is never received", a.src, a.tag, a.count);
  for (int k = 0; k < 2; ++k) {
    if (!n.r[k].fin) mc::fail("rank %d ends without MPI_Finalize", k);
    close(n.r[k].fd);
  }
}
static void stuck(Run &n)
{
  std::string a = n.name(0), b = n.name(1);
  for (int k = 0; k < 2; ++k)
    if (!n.r[k].exited) kill(n.r[k].pid, SIGKILL);
  mc::fail("deadlock when messages are not buffered: rank 0 %s, rank 1 %s", a.c_str(), b.c_str());
}
}  // namespace net
extern "C" {
#define RT __attribute__((visibility("default")))
RT int MPI_Init(int *, char ***) { return net::inited = true, 0; }
RT int MPI_Init_thread(int *, char ***, int r, int *p) { return net::inited = true, *p = r, 0; }
RT int MPI_Initialized(int *f) { return *f = net::inited, 0; }
RT int MPI_Finalized(int *f) { return *f = net::finalized, 0; }
RT int MPI_Finalize()
{
  if (net::fd >= 0) net::call(net::FINALIZE, 0, 0, 0, 0, 0, 0, 0);
  return net::finalized = true, 0;
}
RT int MPI_Abort(MPI_Comm, int c)
{
  if (net::fd >= 0) net::call(net::ABORT, 0, 0, 0, 0, 0, 0, 0);
  _exit(17);
}
RT int MPI_Comm_rank(MPI_Comm, int *r) { return *r = net::rank, 0; }
RT int MPI_Comm_size(MPI_Comm, int *r) { return *r = net::size, 0; }
RT int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return net::call(net::SEND, d, tag, t, n, 0, b, 0), 0; }
RT int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return net::call(net::SSEND, d, tag, t, n, 0, b, 0), 0; }
RT int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return net::call(net::SEND, d, tag, t, n, 0, b, 0), 0; }
RT int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status *st)
{
  net::fill(st, net::call(net::RECV, s, tag, t, n, 0, 0, b));
  return 0;
}
RT int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request *r)
{
  *r = net::call(net::ISEND, d, tag, t, n, 0, b, 0).id;
  net::isend_buf[*r] = {(const char *)b, std::string((const char *)b, n * (t & 255))};
  return 0;
}
RT int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request *r)
{
  *r = net::call(net::IRECV, s, tag, t, n, 0, 0, 0).id;
  net::irecv_buf[*r] = b;
  return 0;
}
RT int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
  if (*r == MPI_REQUEST_NULL) return 0;
  net::fill(st, net::call(net::WAIT, 0, 0, 0, 0, *r, 0, net::irecv_buf.count(*r) ? net::irecv_buf[*r] : 0));
  net::isend_buf.erase(*r);
  *r = MPI_REQUEST_NULL;
  return 0;
}
RT int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st)
{
  for (int i = 0; i < n; ++i) MPI_Wait(r + i, st ? st + i : 0);
  return 0;
}
RT int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *status)
{
  MPI_Request q[2];
  MPI_Irecv(rb, rn, rt, s, rtag, c, q), MPI_Isend(sb, sn, st, d, stag, c, q + 1);
  MPI_Wait(q, status), MPI_Wait(q + 1, 0);
  return 0;
}
RT int MPI_Barrier(MPI_Comm)
{
  if (net::fd >= 0) net::call(net::BARRIER, 0, 0, 0, 0, 0, 0, 0);
  return 0;
}
RT int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  if (net::size == 1) return 0;
  return net::rank == root ? MPI_Send(b, n, t, 1 - root, 1 << 20, c) : MPI_Recv(b, n, t, root, 1 << 20, c, 0);
}
RT int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *status)
{
  std::string o((const char *)b, n * (t & 255));
  return MPI_Sendrecv(o.data(), n, t, d, stag, b, n, t, s, rtag, c, status);
}
RT int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status *st)
{
  net::fill(st, net::call(net::PROBE, s, tag, 0, 0, 0, 0, 0));
  return 0;
}
RT int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) { return *flag = 1, MPI_Wait(r, st); }
// collectives as the messages they consist of
RT int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  const size_t part = rn * (rt & 255);
  if (net::rank != root) return MPI_Send(sb, sn, st, root, (1 << 20) + 1, c);
  if (sb != MPI_IN_PLACE) memcpy((char *)rb + root * part, sb, sn * (st & 255));
  return net::size == 1 ? 0 : MPI_Recv((char *)rb + (1 - root) * part, rn, rt, 1 - root, (1 << 20) + 1, c, 0);
}
RT int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  const size_t part = sn * (st & 255);
  if (net::rank != root) return MPI_Recv(rb, rn, rt, root, (1 << 20) + 2, c, 0);
  if (rb != MPI_IN_PLACE) memcpy(rb, (const char *)sb + root * part, rn * (rt & 255));
  return net::size == 1 ? 0 : MPI_Send((const char *)sb + (1 - root) * part, sn, st, 1 - root, (1 << 20) + 2, c);
}
RT int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c)
{
  const size_t part = rn * (rt & 255);
  char *own = (char *)rb + net::rank * part;
  if (sb != MPI_IN_PLACE) memcpy(own, sb, sn * (st & 255));
  return net::size == 1 ? 0 : MPI_Sendrecv(own, rn, rt, 1 - net::rank, (1 << 20) + 3, (char *)rb + (1 - net::rank) * part, rn, rt, 1 - net::rank, (1 << 20) + 3, c, 0);
}
}
namespace net
{
template <class T>
static void combine(void *a, const void *b, int n, MPI_Op op)
{
  T *x = (T *)a;
  const T *y = (const T *)b;
  for (int i = 0; i < n; ++i) x[i] = op == MPI_SUM ? x[i] + y[i] : op == MPI_MAX ? (x[i] < y[i] ? y[i] : x[i]) : op == MPI_MIN ? (y[i] < x[i] ? y[i] : x[i]) : op == MPI_LAND ? (T)(x[i] && y[i]) : (T)(x[i] || y[i]);
}
static void combine(void *a, const void *b, int n, MPI_Datatype t, MPI_Op op)
{
  t == MPI_DOUBLE ? combine<double>(a, b, n, op) : t == MPI_FLOAT ? combine<float>(a, b, n, op) : t == MPI_INT ? combine<int>(a, b, n, op) : t == MPI_UNSIGNED ? combine<unsigned>(a, b, n, op)
  : (t & 255) == 8 ? combine<long>(a, b, n, op) : combine<char>(a, b, n, op);
}
}  // namespace net
extern "C" {
RT int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  if (sb != MPI_IN_PLACE) memcpy(rb, sb, n * (t & 255));
  if (net::size == 1) return 0;
  std::string o((const char *)rb, n * (t & 255)), in(o.size(), 0);
  MPI_Sendrecv(o.data(), n, t, 1 - net::rank, (1 << 20) + 4, &in[0], n, t, 1 - net::rank, (1 << 20) + 4, c, 0);
  net::combine(rb, in.data(), n, t, op);
  return 0;
}
RT int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
  if (net::rank != root) return MPI_Send(sb, n, t, root, (1 << 20) + 5, c);
  if (sb != MPI_IN_PLACE) memcpy(rb, sb, n * (t & 255));
  if (net::size == 1) return 0;
  std::string in(n * (t & 255), 0);
  MPI_Recv(&in[0], n, t, 1 - root, (1 << 20) + 5, c, 0);
  net::combine(rb, in.data(), n, t, op);
  return 0;
}
RT int MPI_Get_processor_name(char *b, int *n) { return *n = snprintf(b, MPI_MAX_PROCESSOR_NAME, "node%d", net::rank), 0; }
RT double MPI_Wtick() { return 1e-9; }
RT int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { return *n = s->bytes / (t & 255), 0; }
RT int MPI_Type_size(MPI_Datatype t, int *n) { return *n = t & 255, 0; }
RT double MPI_Wtime() { return 0; }
}
