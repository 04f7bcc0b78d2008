#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "simmpi.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <vector>

typedef std::vector<char> Bytes;

/* ---------------------------------------------------------------- types */
enum Kind { K_BYTE, K_CHAR, K_SHORT, K_USHORT, K_INT, K_UINT, K_LONG, K_ULONG, K_LL, K_ULL,
            K_FLOAT, K_DOUBLE, K_LDOUBLE, K_2INT, K_DERIVED, K_NULLT };
struct ompi_datatype_t { Kind kind; size_t size; };
enum OpKind { O_MAX, O_MIN, O_SUM, O_PROD, O_LAND, O_BAND, O_LOR, O_BOR, O_LXOR, O_BXOR, O_USER, O_NULL };
struct ompi_op_t { OpKind kind; MPI_User_function *fn; };
struct ompi_group_t { std::vector<int> ranks; };
struct ompi_info_t { int dummy; };
struct ompi_errhandler_t { int dummy; };

struct Slot;
struct ompi_communicator_t {
  int ctx = -1;
  bool null = false, self = false, predefined = false;
  std::vector<int> group, inv;
  std::vector<long> nextslot;   /* per comm rank */
  std::map<long, Slot *> slots;
  int freed = 0;
  std::vector<std::map<int, void *>> attr;
  /* per process emulation of freed handle use */
  std::vector<char> freed_by;
};
struct ompi_request_t {
  bool null = false, done = false, recv = false, late = false, barrier = false;
  int owner = -1;
  void *buf = nullptr;
  size_t max = 0;
  int src = 0, tag = 0;         /* src: comm rank or ANY */
  ompi_communicator_t *comm = nullptr;
  MPI_Status st;
  Bytes stash;
  Slot *slot = nullptr;
};
struct ompi_win_t {
  bool null = false;
  ompi_communicator_t *comm = nullptr;
  std::vector<char *> base;
  std::vector<size_t> size;
  std::vector<int> disp;
  char *mem = nullptr;
  int freed = 0;
  std::vector<int> held;
};
struct ompi_file_t { int fd = -1; int rank; off_t pos = 0; ompi_communicator_t *comm; bool del = false; std::string name; };

#define PRE(base) struct ompi_predefined_##base##_t : ompi_##base##_t { };
struct ompi_predefined_communicator_t : ompi_communicator_t { };
struct ompi_predefined_datatype_t : ompi_datatype_t { };
struct ompi_predefined_op_t : ompi_op_t { };
struct ompi_predefined_group_t : ompi_group_t { };
struct ompi_predefined_info_t : ompi_info_t { };
struct ompi_predefined_request_t : ompi_request_t { };
struct ompi_predefined_win_t : ompi_win_t { };
struct ompi_predefined_file_t : ompi_file_t { };
struct ompi_predefined_errhandler_t : ompi_errhandler_t { };
#undef PRE

template <class T, class U> static T mk (U u) { T t; static_cast<U &>(t) = u; return t; }
#define DT(nm, k, s) struct ompi_predefined_datatype_t nm = mk<ompi_predefined_datatype_t> (ompi_datatype_t { k, s });
#define OP(nm, k) struct ompi_predefined_op_t nm = mk<ompi_predefined_op_t> (ompi_op_t { k, nullptr });
extern "C" {
DT (ompi_mpi_byte, K_BYTE, 1) DT (ompi_mpi_char, K_CHAR, 1) DT (ompi_mpi_signed_char, K_CHAR, 1)
DT (ompi_mpi_unsigned_char, K_BYTE, 1)
DT (ompi_mpi_short, K_SHORT, 2) DT (ompi_mpi_unsigned_short, K_USHORT, 2)
DT (ompi_mpi_int, K_INT, 4) DT (ompi_mpi_unsigned, K_UINT, 4)
DT (ompi_mpi_long, K_LONG, 8) DT (ompi_mpi_unsigned_long, K_ULONG, 8)
DT (ompi_mpi_long_long_int, K_LL, 8) DT (ompi_mpi_unsigned_long_long, K_ULL, 8)
DT (ompi_mpi_int8_t, K_CHAR, 1) DT (ompi_mpi_uint8_t, K_BYTE, 1)
DT (ompi_mpi_int16_t, K_SHORT, 2) DT (ompi_mpi_uint16_t, K_USHORT, 2)
DT (ompi_mpi_int32_t, K_INT, 4) DT (ompi_mpi_uint32_t, K_UINT, 4)
DT (ompi_mpi_int64_t, K_LL, 8) DT (ompi_mpi_uint64_t, K_ULL, 8)
DT (ompi_mpi_float, K_FLOAT, 4) DT (ompi_mpi_double, K_DOUBLE, 8) DT (ompi_mpi_long_double, K_LDOUBLE, 16)
DT (ompi_mpi_2int, K_2INT, 8) DT (ompi_mpi_datatype_null, K_NULLT, 0)
OP (ompi_mpi_op_max, O_MAX) OP (ompi_mpi_op_min, O_MIN) OP (ompi_mpi_op_sum, O_SUM) OP (ompi_mpi_op_prod, O_PROD)
OP (ompi_mpi_op_land, O_LAND) OP (ompi_mpi_op_band, O_BAND) OP (ompi_mpi_op_lor, O_LOR) OP (ompi_mpi_op_bor, O_BOR)
OP (ompi_mpi_op_lxor, O_LXOR) OP (ompi_mpi_op_bxor, O_BXOR) OP (ompi_mpi_op_null, O_NULL)
struct ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
struct ompi_predefined_group_t ompi_mpi_group_null, ompi_mpi_group_empty;
struct ompi_predefined_info_t ompi_mpi_info_null;
struct ompi_predefined_request_t ompi_request_null;
struct ompi_predefined_win_t ompi_mpi_win_null;
struct ompi_predefined_file_t ompi_mpi_file_null;
struct ompi_predefined_errhandler_t ompi_mpi_errors_return, ompi_mpi_errors_are_fatal, ompi_mpi_errhandler_null;
}

static MPI_Comm const COMM_NULLP = &ompi_mpi_comm_null;
static MPI_Request const REQ_NULLP = &ompi_request_null;

/* ------------------------------------------------------------ collectives */
enum CollKind { C_BARRIER, C_BCAST, C_ALLGATHER, C_ALLGATHERV, C_ALLREDUCE, C_REDUCE, C_GATHER, C_GATHERV,
  C_SCATTER, C_SCATTERV, C_ALLTOALL, C_ALLTOALLV, C_SCAN, C_EXSCAN, C_RSB, C_DUP, C_SPLIT, C_CREATE,
  C_WIN, C_FENCE, C_FILE, C_IBARRIER, C_FREE };
static const char *collname[] = { "Barrier", "Bcast", "Allgather", "Allgatherv", "Allreduce", "Reduce", "Gather",
  "Gatherv", "Scatter", "Scatterv", "Alltoall", "Alltoallv", "Scan", "Exscan", "Reduce_scatter_block", "Comm_dup",
  "Comm_split", "Comm_create", "Win_allocate", "Win_fence", "File_open/close", "Ibarrier", "Comm_free" };
struct Slot {
  CollKind kind; int root; long sig; Kind dt; OpKind op;
  int first;
  std::vector<char> arrived, left;
  int narrived = 0, nleft = 0;
  std::vector<Bytes> in;
  std::vector<ompi_communicator_t *> newcomm;   /* for comm creation, filled once */
  ompi_win_t *win = nullptr;
  bool made = false; long fsize = 0;
};

/* ---------------------------------------------------------------- fibers */
extern "C" {
void __sanitizer_start_switch_fiber (void **, const void *, size_t) __attribute__ ((weak));
void __sanitizer_finish_switch_fiber (void *, const void **, size_t *) __attribute__ ((weak));
void simmpi_switch (void **save, void *to);
}
__asm__ (".text\n.globl simmpi_switch\n.type simmpi_switch,@function\nsimmpi_switch:\n"
         "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
         "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
         "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
         ".size simmpi_switch,.-simmpi_switch\n");

struct Msg {
  int src, dst;                 /* world */
  int csrc;                     /* comm rank of the sender */
  int ctx, tag;
  size_t bytes;
  const void *buf = nullptr;    /* rendezvous */
  Bytes data;                   /* eager */
  bool captured = false;
  bool *captured_flag = nullptr; /* blocking send waits for this */
  ompi_request_t *sreq = nullptr;
  long seq;
};

struct Fiber {
  char *stack = nullptr; size_t size = 0;
  void *sp = nullptr; void *fake = nullptr;
  bool started = false, finished = false, polled = false;
  std::function<bool ()> *pred = nullptr;
  const char *what = "";
  std::string detail;
  std::vector<ompi_request_t *> posted;
  std::list<Msg *> unexpected;
  uint64_t prio = 0;
};

static ompi_communicator_t subworld;
static struct {
  sim::Config cfg;
  uint64_t rng = 1;
  int P = 0, cur = -1;
  std::vector<Fiber> f;
  std::vector<std::deque<Msg *>> chan; /* src * P + dst */
  int inflight = 0;
  void *main_sp = nullptr, *main_fake = nullptr;
  const void *main_bottom = nullptr; size_t main_size = 0;
  std::function<void (int)> fn;
  sim::Report rep;
  int nextctx = 10;
  std::vector<ompi_communicator_t *> comms, selfcomm;
  std::vector<ompi_win_t *> wins;
  std::vector<ompi_file_t *> files;
  std::vector<ompi_request_t *> reqs;
  int live_req = 0, live_types = 0;
  uint64_t ncalls = 0, polls = 0;
  double wtime = 1000.;
  long msgseq = 0;
  int nextkey = 1;
  struct KV { MPI_Comm_copy_attr_function *cp; MPI_Comm_delete_attr_function *del; void *extra; };
  std::map<int, KV> keys;
  int hb_count = 0; long hb_gen = 0;
  int rr = 0;
} S;

static uint64_t rnd () {
  uint64_t z = (S.rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t rnd (uint64_t n) { return rnd () % n; }

static void to_main () {
  Fiber & f = S.f[S.cur];
  if (__sanitizer_start_switch_fiber)
    __sanitizer_start_switch_fiber (f.finished ? nullptr : &f.fake, S.main_bottom, S.main_size);
  simmpi_switch (&f.sp, S.main_sp);
  if (__sanitizer_finish_switch_fiber)
    __sanitizer_finish_switch_fiber (f.fake, &S.main_bottom, &S.main_size);
}
static void fiber_entry () {
  if (__sanitizer_finish_switch_fiber)
    __sanitizer_finish_switch_fiber (nullptr, &S.main_bottom, &S.main_size);
  if (sim::rank () >= 0) S.fn (sim::rank ());
  S.f[S.cur].finished = true;
  to_main ();
  abort ();
}
static void to_fiber (int r) {
  Fiber & f = S.f[r];
  S.cur = r;
  S.rep.switches++;
  if (!f.started) {
    f.started = true;
    uintptr_t top = (uintptr_t) (f.stack + f.size) & ~(uintptr_t) 15;
    void **sp = (void **) top;
    *--sp = nullptr;            /* alignment: entry sees rsp = 16n + 8 */
    *--sp = (void *) fiber_entry;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f.sp = sp;
  }
  if (__sanitizer_start_switch_fiber)
    __sanitizer_start_switch_fiber (&S.main_fake, f.stack, f.size);
  simmpi_switch (&S.main_sp, f.sp);
  if (__sanitizer_finish_switch_fiber)
    __sanitizer_finish_switch_fiber (S.main_fake, nullptr, nullptr);
  S.cur = -1;
}

static ompi_communicator_t *resolve (MPI_Comm c) {
  if (S.cur < 0) sim_internal ("MPI call outside of a simulated rank");
  S.ncalls++;
  if (c == &ompi_mpi_comm_self) return S.selfcomm[S.cur];
  if (c == nullptr || c->null) sim_violation ("MPI call on the null communicator");
  if (c != &ompi_mpi_comm_world && !(S.cfg.sub && c == &subworld) && std::find (S.comms.begin (), S.comms.end (), c) == S.comms.end ())
    sim_violation ("MPI call on an invalid communicator handle");
  if (c->inv[S.cur] < 0) sim_violation ("MPI call on a communicator by a non-member");
  if (c->freed_by[c->inv[S.cur]]) sim_violation ("MPI call on a communicator that this process has freed");
  return c;
}

static void block_on (const char *what, std::function<bool ()> pred, const std::string & detail = "") {
  Fiber & f = S.f[S.cur];
  if (pred ()) return;
  f.pred = &pred; f.what = what; f.detail = detail;
  to_main ();
  f.pred = nullptr;
}
static void progress () { S.polls = 0; }
static void maybe_yield () {
  if (S.cfg.policy == sim::ROUND_ROBIN) return;
  if (rnd (4) == 0) to_main ();
}
static void poll_fail () {
  if (++S.polls > 400000) sim_violation ("no progress: processes poll for messages forever");
  S.f[S.cur].polled = true;
  to_main ();
}

static ompi_communicator_t *newcomm (const std::vector<int> & group) {
  ompi_communicator_t *c = new ompi_communicator_t;
  c->ctx = S.nextctx++;
  c->group = group;
  c->inv.assign (S.P, -1);
  for (size_t i = 0; i < group.size (); ++i) c->inv[group[i]] = (int) i;
  c->nextslot.assign (group.size (), 0);
  c->attr.resize (group.size ());
  c->freed_by.assign (group.size (), 0);
  S.comms.push_back (c);
  return c;
}
static void initcomm (ompi_communicator_t *c, int ctx, const std::vector<int> & group) {
  for (auto & s : c->slots) delete s.second;
  *c = ompi_communicator_t ();
  c->ctx = ctx; c->group = group; c->inv.assign (S.P, -1);
  for (size_t i = 0; i < group.size (); ++i) c->inv[group[i]] = (int) i;
  c->nextslot.assign (group.size (), 0);
  c->attr.resize (group.size ());
  c->freed_by.assign (group.size (), 0);
  c->predefined = true;
}

/* ------------------------------------------------------- point to point */
static void complete_recv (ompi_request_t *q, Msg *m) {
  if (m->bytes > q->max)
    sim_violation ("message truncated: %zu bytes from process %d tag %d into a buffer of %zu on process %d",
                   m->bytes, m->src, m->tag, q->max, m->dst);
  const void *from = m->captured ? (const void *) m->data.data () : m->buf;
  if (q->late) q->stash.assign ((const char *) from, (const char *) from + m->bytes);
  else if (m->bytes) memcpy (q->buf, from, m->bytes);
  q->done = true;
  q->st.MPI_SOURCE = m->csrc; q->st.MPI_TAG = m->tag; q->st.MPI_ERROR = MPI_SUCCESS; q->st._ucount = m->bytes;
  if (m->captured_flag) *m->captured_flag = true;
  if (m->sreq) m->sreq->done = true;
  S.inflight--;
  delete m;
  progress ();
}
static bool matches (const ompi_request_t *q, const Msg *m) {
  return q->comm->ctx == m->ctx && (q->src == MPI_ANY_SOURCE || q->src == m->csrc)
    && (q->tag == MPI_ANY_TAG || q->tag == m->tag);
}
static void arrive (Msg *m) {
  Fiber & d = S.f[m->dst];
  progress ();
  for (size_t i = 0; i < d.posted.size (); ++i)
    if (matches (d.posted[i], m)) {
      ompi_request_t *q = d.posted[i];
      d.posted.erase (d.posted.begin () + i);
      complete_recv (q, m);
      return;
    }
  d.unexpected.push_back (m);
}
static void deliver (int ch) {
  Msg *m = S.chan[ch].front ();
  S.chan[ch].pop_front ();
  arrive (m);
}
static void send_common (const void *buf, size_t bytes, int dest, int tag, ompi_communicator_t *c,
                         bool sync, bool *flag, ompi_request_t *req) {
  if (dest < 0 || dest >= (int) c->group.size ()) sim_violation ("send to invalid process %d", dest);
  if (tag < 0) sim_violation ("send with invalid tag %d", tag);
  Msg *m = new Msg;
  m->src = S.cur; m->csrc = c->inv[S.cur]; m->dst = c->group[dest]; m->ctx = c->ctx; m->tag = tag; m->bytes = bytes;
  m->seq = S.msgseq++;
  bool eager = S.cfg.buffering == sim::EAGER || (S.cfg.buffering == sim::MIXED && rnd (2));
  S.rep.sends++;
  S.inflight++;
  if (eager) {
    m->data.assign ((const char *) buf, (const char *) buf + bytes);
    m->captured = true;
    if (!sync) {
      if (flag) *flag = true;
      if (req) req->done = true;
    }
    else { m->captured_flag = flag; m->sreq = req; }
  }
  else { S.rep.rendezvous++; m->buf = buf; m->captured_flag = flag; m->sreq = req; }
  if (S.cfg.policy == sim::ROUND_ROBIN) {
    arrive (m);
  }
  else S.chan[m->src * S.P + m->dst].push_back (m);
}
static ompi_request_t *newreq () {
  ompi_request_t *q = new ompi_request_t;
  q->owner = S.cur; q->st = MPI_Status ();
  S.live_req++;
  S.reqs.push_back (q);
  return q;
}
static ompi_request_t *post_recv (void *buf, size_t max, int src, int tag, ompi_communicator_t *c) {
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int) c->group.size ())) sim_violation ("receive from invalid process %d", src);
  ompi_request_t *q = newreq ();
  q->recv = true; q->buf = buf; q->max = max; q->src = src; q->tag = tag; q->comm = c;
  q->late = S.cfg.policy != sim::ROUND_ROBIN && rnd (3) == 0;
  if (src == MPI_ANY_SOURCE) S.rep.any_source++;
  Fiber & f = S.f[S.cur];
  for (auto it = f.unexpected.begin (); it != f.unexpected.end (); ++it)
    if (matches (q, *it)) {
      Msg *m = *it;
      f.unexpected.erase (it);
      complete_recv (q, m);
      return q;
    }
  f.posted.push_back (q);
  return q;
}
static void finish_req (MPI_Request *rp, MPI_Status *st) {
  ompi_request_t *q = *rp;
  if (q->null) {
    if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = MPI_SUCCESS; st->_ucount = 0; }
    return;
  }
  if (q->late && !q->stash.empty ()) memcpy (q->buf, q->stash.data (), q->stash.size ());
  if (st) *st = q->st;
  S.live_req--;
  S.reqs.erase (std::find (S.reqs.begin (), S.reqs.end (), q));
  delete q;
  *rp = REQ_NULLP;
}
static void checkreq (MPI_Request q) {
  if (q == nullptr) sim_violation ("wait on an invalid request");
  if (q->null) return;
  if (std::find (S.reqs.begin (), S.reqs.end (), q) == S.reqs.end ()) sim_violation ("wait on an invalid request");
  if (q->owner != S.cur) sim_violation ("wait on a request of another process");
}
static bool req_ready (ompi_request_t *q) {
  if (q->null || q->done) return true;
  if (q->barrier && q->slot->narrived == (int) q->slot->arrived.size ()) return true;
  return false;
}

/* ------------------------------------------------------------ collective */
static Slot *join (ompi_communicator_t *c, CollKind kind, int root, long sig, Kind dt, OpKind op, const void *data, size_t bytes) {
  int me = c->inv[S.cur], n = (int) c->group.size ();
  long k = c->nextslot[me]++;
  Slot *&s = c->slots[k];
  S.rep.collectives++;
  if (root >= 0 && root >= n) sim_violation ("%s with invalid root %d", collname[kind], root);
  if (!s) {
    s = new Slot;
    s->kind = kind; s->root = root; s->sig = sig; s->dt = dt; s->op = op; s->first = me;
    s->arrived.assign (n, 0); s->left.assign (n, 0); s->in.resize (n); s->newcomm.assign (n, nullptr);
  }
  else {
    if (s->kind != kind) sim_violation ("collective mismatch: process %d calls MPI_%s while process %d calls MPI_%s on the same communicator",
                                        me, collname[kind], s->first, collname[s->kind]);
    if (s->root != root) sim_violation ("MPI_%s: roots differ (%d and %d)", collname[kind], root, s->root);
    if (s->sig != sig) sim_violation ("MPI_%s: message sizes differ between processes (%ld and %ld)", collname[kind], sig, s->sig);
    if (s->op != op) sim_violation ("MPI_%s: operations differ between processes", collname[kind]);
  }
  s->arrived[me] = 1; s->narrived++;
  if (bytes) s->in[me].assign ((const char *) data, (const char *) data + bytes);
  progress ();
  return s;
}
static void wait_all (ompi_communicator_t *c, Slot *s) {
  int n = (int) c->group.size ();
  block_on (collname[s->kind], [=] { return s->narrived == n; });
}
static void leave (ompi_communicator_t *c, Slot *s) {
  int n = (int) c->group.size ();
  if (++s->nleft == n) {
    for (auto it = c->slots.begin (); it != c->slots.end (); ++it)
      if (it->second == s) { c->slots.erase (it); break; }
    delete s;
  }
}
template <class T> static void red (OpKind op, const T * a, T * b, size_t n) {
  for (size_t i = 0; i < n; ++i) switch (op) {
    case O_MAX: b[i] = std::max (a[i], b[i]); break;
    case O_MIN: b[i] = std::min (a[i], b[i]); break;
    case O_SUM: b[i] = (T) (a[i] + b[i]); break;
    case O_PROD: b[i] = (T) (a[i] * b[i]); break;
    case O_LAND: b[i] = (T) (a[i] && b[i]); break;
    case O_LOR: b[i] = (T) (a[i] || b[i]); break;
    case O_LXOR: b[i] = (T) (!a[i] != !b[i]); break;
    default: sim_internal ("reduction not supported");
  }
}
template <class T> static void redi (OpKind op, const T * a, T * b, size_t n) {
  for (size_t i = 0; i < n; ++i) switch (op) {
    case O_BAND: b[i] = (T) (a[i] & b[i]); break;
    case O_BOR: b[i] = (T) (a[i] | b[i]); break;
    case O_BXOR: b[i] = (T) (a[i] ^ b[i]); break;
    case O_SUM: b[i] = (T) ((typename std::make_unsigned<T>::type) a[i] + (typename std::make_unsigned<T>::type) b[i]); break;
    default: red<T> (op, a + i, b + i, 1);
  }
}
/* inout = in op inout (in has the lower rank) */
static void reduce_apply (MPI_Op op, MPI_Datatype dt, const void *in, void *inout, int count) {
  if (op->kind == O_USER) { op->fn ((void *) in, inout, &count, &dt); return; }
  size_t n = (size_t) count;
  switch (dt->kind) {
  case K_BYTE: redi (op->kind, (const unsigned char *) in, (unsigned char *) inout, n); break;
  case K_CHAR: redi (op->kind, (const signed char *) in, (signed char *) inout, n); break;
  case K_SHORT: redi (op->kind, (const short *) in, (short *) inout, n); break;
  case K_USHORT: redi (op->kind, (const unsigned short *) in, (unsigned short *) inout, n); break;
  case K_INT: redi (op->kind, (const int *) in, (int *) inout, n); break;
  case K_UINT: redi (op->kind, (const unsigned *) in, (unsigned *) inout, n); break;
  case K_LONG: redi (op->kind, (const long *) in, (long *) inout, n); break;
  case K_ULONG: redi (op->kind, (const unsigned long *) in, (unsigned long *) inout, n); break;
  case K_LL: redi (op->kind, (const long long *) in, (long long *) inout, n); break;
  case K_ULL: redi (op->kind, (const unsigned long long *) in, (unsigned long long *) inout, n); break;
  case K_FLOAT: red (op->kind, (const float *) in, (float *) inout, n); break;
  case K_DOUBLE: red (op->kind, (const double *) in, (double *) inout, n); break;
  case K_LDOUBLE: red (op->kind, (const long double *) in, (long double *) inout, n); break;
  default: sim_internal ("reduction type not supported");
  }
}
/* reduce contributions of comm ranks [0, n) in rank order */
static void reduce_range (Slot *s, int n, MPI_Op op, MPI_Datatype dt, void *out, int count) {
  if (n <= 0) return;
  Bytes acc = s->in[0];
  for (int r = 1; r < n; ++r) {
    Bytes tmp = s->in[r];
    reduce_apply (op, dt, acc.data (), tmp.data (), count);
    acc.swap (tmp);
  }
  if (!acc.empty ()) memcpy (out, acc.data (), acc.size ());
}
#define INPLACE_UNSUPPORTED(b) do { if ((b) == MPI_IN_PLACE) sim_internal ("MPI_IN_PLACE"); } while (0)
static void *inplace (const void *send, void *recv) { return send == MPI_IN_PLACE ? recv : const_cast<void *> (send); }

extern "C" {

int MPI_Init (int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread (int *, char ***, int req, int *prov) { *prov = req; return MPI_SUCCESS; }
int MPI_Initialized (int *f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalize (void) { return MPI_SUCCESS; }
int MPI_Finalized (int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Abort (MPI_Comm, int) { sim_violation ("the library aborts the program (MPI_Abort)"); }
double MPI_Wtime (void) { return S.wtime += 1e-6; }

int MPI_Comm_size (MPI_Comm c, int *n) { *n = (int) resolve (c)->group.size (); return MPI_SUCCESS; }
int MPI_Comm_rank (MPI_Comm c, int *r) { *r = resolve (c)->inv[S.cur]; return MPI_SUCCESS; }
int MPI_Comm_compare (MPI_Comm a, MPI_Comm b, int *res) {
  a = resolve (a); b = resolve (b);
  if (a == b) *res = MPI_IDENT;
  else if (a->group == b->group) *res = MPI_CONGRUENT;
  else {
    std::vector<int> x = a->group, y = b->group;
    std::sort (x.begin (), x.end ()); std::sort (y.begin (), y.end ());
    *res = x == y ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return MPI_SUCCESS;
}
int MPI_Comm_dup (MPI_Comm cc, MPI_Comm *out) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  maybe_yield ();
  Slot *s = join (c, C_DUP, -1, 0, K_BYTE, O_NULL, nullptr, 0);
  wait_all (c, s);
  if (!s->made) { s->newcomm[0] = newcomm (c->group); s->made = true; }
  ompi_communicator_t *n = s->newcomm[0];
  for (auto & kv : c->attr[me]) {
    auto k = S.keys.find (kv.first);
    if (k == S.keys.end ()) continue;
    int flag = 0; void *v = nullptr;
    if (k->second.cp) k->second.cp (c, kv.first, k->second.extra, kv.second, &v, &flag);
    if (flag) n->attr[me][kv.first] = v;
  }
  *out = n;
  leave (c, s);
  return MPI_SUCCESS;
}
static int split_common (ompi_communicator_t *c, CollKind kind, int color, int key, MPI_Comm *out) {
  int me = c->inv[S.cur];
  int ck[2] = { color, key };
  maybe_yield ();
  Slot *s = join (c, kind, -1, 0, K_BYTE, O_NULL, ck, sizeof ck);
  wait_all (c, s);
  if (!s->made) {
    s->made = true;
    int n = (int) c->group.size ();
    std::map<int, std::vector<std::pair<int, int>>> cols;
    for (int r = 0; r < n; ++r) {
      int *d = (int *) s->in[r].data ();
      if (d[0] != MPI_UNDEFINED) cols[d[0]].push_back ({ d[1], r });
    }
    for (auto & kv : cols) {
      std::stable_sort (kv.second.begin (), kv.second.end ());
      std::vector<int> g;
      for (auto & p : kv.second) g.push_back (c->group[p.second]);
      ompi_communicator_t *nc = newcomm (g);
      for (auto & p : kv.second) s->newcomm[p.second] = nc;
    }
  }
  *out = s->newcomm[me] ? s->newcomm[me] : COMM_NULLP;
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Comm_split (MPI_Comm c, int color, int key, MPI_Comm *out) { return split_common (resolve (c), C_SPLIT, color, key, out); }
int MPI_Comm_split_type (MPI_Comm c, int type, int key, MPI_Info, MPI_Comm *out) {
  if (type != MPI_COMM_TYPE_SHARED && type != MPI_UNDEFINED) sim_internal ("split type %d", type);
  ompi_communicator_t *r = resolve (c);
  return split_common (r, C_SPLIT, type == MPI_UNDEFINED ? MPI_UNDEFINED : sim::rank () / S.cfg.nodesize, key, out);
}
int MPI_Comm_group (MPI_Comm c, MPI_Group *g) { *g = new ompi_group_t { resolve (c)->group }; return MPI_SUCCESS; }
int MPI_Group_free (MPI_Group *g) { if (*g != &ompi_mpi_group_null && *g != &ompi_mpi_group_empty) delete *g; *g = &ompi_mpi_group_null; return MPI_SUCCESS; }
int MPI_Group_size (MPI_Group g, int *n) { *n = (int) g->ranks.size (); return MPI_SUCCESS; }
int MPI_Group_rank (MPI_Group g, int *r) {
  *r = MPI_UNDEFINED;
  for (size_t i = 0; i < g->ranks.size (); ++i) if (g->ranks[i] == S.cur) *r = (int) i;
  return MPI_SUCCESS;
}
int MPI_Group_incl (MPI_Group g, int n, const int ranks[], MPI_Group *out) {
  ompi_group_t *o = new ompi_group_t;
  for (int i = 0; i < n; ++i) {
    if (ranks[i] < 0 || ranks[i] >= (int) g->ranks.size ()) sim_violation ("MPI_Group_incl with invalid rank %d", ranks[i]);
    o->ranks.push_back (g->ranks[ranks[i]]);
  }
  *out = o;
  return MPI_SUCCESS;
}
int MPI_Group_excl (MPI_Group g, int n, const int ranks[], MPI_Group *out) {
  ompi_group_t *o = new ompi_group_t;
  for (size_t i = 0; i < g->ranks.size (); ++i)
    if (std::find (ranks, ranks + n, (int) i) == ranks + n) o->ranks.push_back (g->ranks[i]);
  *out = o;
  return MPI_SUCCESS;
}
int MPI_Group_union (MPI_Group a, MPI_Group b, MPI_Group *out) {
  ompi_group_t *o = new ompi_group_t { a->ranks };
  for (int r : b->ranks) if (std::find (o->ranks.begin (), o->ranks.end (), r) == o->ranks.end ()) o->ranks.push_back (r);
  *out = o;
  return MPI_SUCCESS;
}
int MPI_Group_translate_ranks (MPI_Group a, int n, const int ra[], MPI_Group b, int rb[]) {
  for (int i = 0; i < n; ++i) {
    if (ra[i] < 0 || ra[i] >= (int) a->ranks.size ()) sim_violation ("MPI_Group_translate_ranks with invalid rank %d", ra[i]);
    auto it = std::find (b->ranks.begin (), b->ranks.end (), a->ranks[ra[i]]);
    rb[i] = it == b->ranks.end () ? MPI_UNDEFINED : (int) (it - b->ranks.begin ());
  }
  return MPI_SUCCESS;
}
int MPI_Comm_create (MPI_Comm cc, MPI_Group g, MPI_Comm *out) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  maybe_yield ();
  Slot *s = join (c, C_CREATE, -1, 0, K_BYTE, O_NULL, g->ranks.data (), g->ranks.size () * sizeof (int));
  wait_all (c, s);
  int n = (int) c->group.size ();
  if (!s->made) {
    s->made = true;
    for (int r = 0; r < n; ++r) {
      if (s->newcomm[r]) continue;
      int *d = (int *) s->in[r].data (); size_t m = s->in[r].size () / sizeof (int);
      std::vector<int> gr (d, d + m);
      if (std::find (gr.begin (), gr.end (), c->group[r]) == gr.end ()) continue;
      ompi_communicator_t *nc = newcomm (gr);
      for (int w : gr) {
        if (c->inv[w] < 0) sim_violation ("MPI_Comm_create: group is not a subset of the communicator");
        if (s->in[c->inv[w]] != s->in[r]) sim_violation ("MPI_Comm_create: groups differ between processes");
        s->newcomm[c->inv[w]] = nc;
      }
    }
  }
  *out = s->newcomm[me] ? s->newcomm[me] : COMM_NULLP;
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Comm_free (MPI_Comm *cc) {
  ompi_communicator_t *c = resolve (*cc);
  if (c->predefined) sim_violation ("MPI_Comm_free on a predefined communicator");
  int me = c->inv[S.cur];
  for (auto & kv : c->attr[me]) {
    auto k = S.keys.find (kv.first);
    if (k != S.keys.end () && k->second.del) k->second.del (c, kv.first, kv.second, k->second.extra);
  }
  c->attr[me].clear ();
  c->freed_by[me] = 1;
  c->freed++;
  *cc = COMM_NULLP;
  return MPI_SUCCESS;
}
int OMPI_C_MPI_COMM_DUP_FN (MPI_Comm, int, void *, void *in, void *out, int *flag) { *flag = 1; *(void **) out = in; return MPI_SUCCESS; }
int OMPI_C_MPI_COMM_NULL_COPY_FN (MPI_Comm, int, void *, void *, void *, int *flag) { *flag = 0; return MPI_SUCCESS; }
int OMPI_C_MPI_COMM_NULL_DELETE_FN (MPI_Comm, int, void *, void *) { return MPI_SUCCESS; }
int MPI_Comm_create_keyval (MPI_Comm_copy_attr_function *cp, MPI_Comm_delete_attr_function *del, int *k, void *extra) {
  *k = S.nextkey++;
  S.keys[*k] = { cp, del, extra };
  return MPI_SUCCESS;
}
int MPI_Comm_free_keyval (int *k) { *k = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
int MPI_Comm_set_attr (MPI_Comm cc, int k, void *v) { ompi_communicator_t *c = resolve (cc); c->attr[c->inv[S.cur]][k] = v; return MPI_SUCCESS; }
int MPI_Comm_get_attr (MPI_Comm cc, int k, void *v, int *flag) {
  ompi_communicator_t *c = resolve (cc);
  auto & a = c->attr[c->inv[S.cur]];
  auto it = a.find (k);
  *flag = it != a.end ();
  if (*flag) *(void **) v = it->second;
  return MPI_SUCCESS;
}
int MPI_Comm_delete_attr (MPI_Comm cc, int k) {
  ompi_communicator_t *c = resolve (cc);
  auto & a = c->attr[c->inv[S.cur]];
  auto it = a.find (k);
  if (it == a.end ()) return MPI_SUCCESS;
  auto kv = S.keys.find (k);
  void *v = it->second;
  if (kv != S.keys.end () && kv->second.del) kv->second.del (c, k, v, kv->second.extra);
  a.erase (k);
  return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler (MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Error_class (int e, int *c) { *c = e; return MPI_SUCCESS; }
int MPI_Error_string (int, char *s, int *len) { strcpy (s, "error"); *len = 5; return MPI_SUCCESS; }

int MPI_Type_size (MPI_Datatype d, int *s) { *s = (int) d->size; return MPI_SUCCESS; }
int MPI_Type_contiguous (int n, MPI_Datatype o, MPI_Datatype *d) {
  ompi_datatype_t *t = new ompi_datatype_t { n == 1 ? o->kind : K_DERIVED, (size_t) n * o->size };
  S.live_types++;
  *d = t; return MPI_SUCCESS;
}
int MPI_Type_commit (MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free (MPI_Datatype *d) { delete *d; *d = nullptr; S.live_types--; return MPI_SUCCESS; }
int MPI_Op_create (MPI_User_function *fn, int, MPI_Op *op) { *op = new ompi_op_t { O_USER, fn }; return MPI_SUCCESS; }
int MPI_Op_free (MPI_Op *op) { delete *op; *op = nullptr; return MPI_SUCCESS; }
int MPI_Alloc_mem (MPI_Aint size, MPI_Info, void *b) { *(void **) b = malloc (size ? size : 1); return MPI_SUCCESS; }
int MPI_Free_mem (void *b) { free (b); return MPI_SUCCESS; }

int MPI_Send (const void *b, int n, MPI_Datatype d, int dest, int tag, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  if (n < 0) sim_violation ("send with negative count");
  maybe_yield ();
  bool flag = false;
  send_common (b, (size_t) n * d->size, dest, tag, c, false, &flag, nullptr);
  block_on ("Send", [&] { return flag; }, "to " + std::to_string (dest) + " tag " + std::to_string (tag));
  return MPI_SUCCESS;
}
int MPI_Ssend (const void *b, int n, MPI_Datatype d, int dest, int tag, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  maybe_yield ();
  bool flag = false;
  send_common (b, (size_t) n * d->size, dest, tag, c, true, &flag, nullptr);
  block_on ("Ssend", [&] { return flag; });
  return MPI_SUCCESS;
}
int MPI_Isend (const void *b, int n, MPI_Datatype d, int dest, int tag, MPI_Comm cc, MPI_Request *r) {
  ompi_communicator_t *c = resolve (cc);
  if (n < 0) sim_violation ("send with negative count");
  maybe_yield ();
  ompi_request_t *q = newreq ();
  *r = q;
  send_common (b, (size_t) n * d->size, dest, tag, c, false, nullptr, q);
  return MPI_SUCCESS;
}
int MPI_Issend (const void *b, int n, MPI_Datatype d, int dest, int tag, MPI_Comm cc, MPI_Request *r) {
  ompi_communicator_t *c = resolve (cc);
  maybe_yield ();
  ompi_request_t *q = newreq ();
  *r = q;
  send_common (b, (size_t) n * d->size, dest, tag, c, true, nullptr, q);
  return MPI_SUCCESS;
}
int MPI_Irecv (void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm cc, MPI_Request *r) {
  ompi_communicator_t *c = resolve (cc);
  if (n < 0) sim_violation ("receive with negative count");
  maybe_yield ();
  *r = post_recv (b, (size_t) n * d->size, src, tag, c);
  return MPI_SUCCESS;
}
int MPI_Recv (void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm cc, MPI_Status *st) {
  ompi_communicator_t *c = resolve (cc);
  if (n < 0) sim_violation ("receive with negative count");
  maybe_yield ();
  MPI_Request q = post_recv (b, (size_t) n * d->size, src, tag, c);
  block_on ("Recv", [=] { return q->done; }, "from " + std::to_string (src) + " tag " + std::to_string (tag));
  finish_req (&q, st);
  return MPI_SUCCESS;
}
int MPI_Sendrecv (const void *sb, int sn, MPI_Datatype sd, int dest, int stag, void *rb, int rn, MPI_Datatype rd, int src,
                  int rtag, MPI_Comm c, MPI_Status *st) {
  MPI_Request r[2];
  MPI_Status s2[2];
  MPI_Irecv (rb, rn, rd, src, rtag, c, &r[0]);
  MPI_Isend (sb, sn, sd, dest, stag, c, &r[1]);
  MPI_Waitall (2, r, s2);
  if (st) *st = s2[0];
  return MPI_SUCCESS;
}
static Msg *probe_find (ompi_communicator_t *c, int src, int tag) {
  ompi_request_t q; q.comm = c; q.src = src; q.tag = tag;
  for (Msg *m : S.f[S.cur].unexpected) if (matches (&q, m)) return m;
  return nullptr;
}
static void probe_status (Msg *m, MPI_Status *st) {
  if (!st) return;
  st->MPI_SOURCE = m->csrc; st->MPI_TAG = m->tag; st->MPI_ERROR = MPI_SUCCESS; st->_ucount = m->bytes;
}
int MPI_Probe (int src, int tag, MPI_Comm cc, MPI_Status *st) {
  ompi_communicator_t *c = resolve (cc);
  maybe_yield ();
  int me = S.cur;
  block_on ("Probe", [=] {
    ompi_request_t q; q.comm = c; q.src = src; q.tag = tag;
    for (Msg *m : S.f[me].unexpected) if (matches (&q, m)) return true;
    return false; }, "from " + std::to_string (src) + " tag " + std::to_string (tag));
  probe_status (probe_find (c, src, tag), st);
  return MPI_SUCCESS;
}
int MPI_Iprobe (int src, int tag, MPI_Comm cc, int *flag, MPI_Status *st) {
  ompi_communicator_t *c = resolve (cc);
  Msg *m = probe_find (c, src, tag);
  if (m && S.cfg.policy != sim::ROUND_ROBIN && rnd (4) == 0) m = nullptr;
  *flag = m != nullptr;
  if (m) probe_status (m, st);
  else poll_fail ();
  return MPI_SUCCESS;
}
int MPI_Get_count (const MPI_Status *st, MPI_Datatype d, int *n) {
  if (d->size == 0) *n = 0;
  else if (st->_ucount % d->size) *n = MPI_UNDEFINED;
  else *n = (int) (st->_ucount / d->size);
  return MPI_SUCCESS;
}
int MPI_Wait (MPI_Request *r, MPI_Status *st) {
  S.ncalls++;
  checkreq (*r);
  MPI_Request q = *r;
  maybe_yield ();
  block_on ("Wait", [=] { return req_ready (q); }, q->recv ? "receive from " + std::to_string (q->src) + " tag " + std::to_string (q->tag) : "send");
  if (q->barrier) leave (q->comm, q->slot);
  finish_req (r, st);
  return MPI_SUCCESS;
}
int MPI_Waitall (int n, MPI_Request r[], MPI_Status st[]) {
  S.ncalls++;
  for (int i = 0; i < n; ++i) checkreq (r[i]);
  maybe_yield ();
  std::string det;
  block_on ("Waitall", [=] { for (int i = 0; i < n; ++i) if (!req_ready (r[i])) return false; return true; });
  for (int i = 0; i < n; ++i) {
    if (r[i]->barrier) leave (r[i]->comm, r[i]->slot);
    finish_req (&r[i], st ? &st[i] : nullptr);
  }
  return MPI_SUCCESS;
}
int MPI_Waitsome (int n, MPI_Request r[], int *out, int idx[], MPI_Status st[]) {
  S.ncalls++;
  bool any = false;
  for (int i = 0; i < n; ++i) { checkreq (r[i]); any |= !r[i]->null; }
  if (!any) { *out = MPI_UNDEFINED; return MPI_SUCCESS; }
  maybe_yield ();
  block_on ("Waitsome", [=] { for (int i = 0; i < n; ++i) if (!r[i]->null && req_ready (r[i])) return true; return false; });
  std::vector<int> ready;
  for (int i = 0; i < n; ++i) if (!r[i]->null && req_ready (r[i])) ready.push_back (i);
  if (S.cfg.policy != sim::ROUND_ROBIN && rnd (2)) {
    std::vector<int> sub;
    for (int i : ready) if (rnd (2)) sub.push_back (i);
    if (sub.empty ()) sub.push_back (ready[rnd (ready.size ())]);
    if (rnd (2)) for (size_t i = sub.size (); i > 1; --i) std::swap (sub[i - 1], sub[rnd (i)]);
    ready = sub;
  }
  *out = (int) ready.size ();
  for (size_t i = 0; i < ready.size (); ++i) {
    idx[i] = ready[i];
    if (r[ready[i]]->barrier) leave (r[ready[i]]->comm, r[ready[i]]->slot);
    finish_req (&r[ready[i]], st ? &st[i] : nullptr);
  }
  progress ();
  return MPI_SUCCESS;
}
int MPI_Waitany (int n, MPI_Request r[], int *idx, MPI_Status *st) {
  S.ncalls++;
  bool any = false;
  for (int i = 0; i < n; ++i) { checkreq (r[i]); any |= !r[i]->null; }
  if (!any) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
  block_on ("Waitany", [=] { for (int i = 0; i < n; ++i) if (!r[i]->null && req_ready (r[i])) return true; return false; });
  std::vector<int> ready;
  for (int i = 0; i < n; ++i) if (!r[i]->null && req_ready (r[i])) ready.push_back (i);
  *idx = ready[S.cfg.policy != sim::ROUND_ROBIN ? rnd (ready.size ()) : 0];
  if (r[*idx]->barrier) leave (r[*idx]->comm, r[*idx]->slot);
  finish_req (&r[*idx], st);
  return MPI_SUCCESS;
}
int MPI_Test (MPI_Request *r, int *flag, MPI_Status *st) {
  S.ncalls++;
  checkreq (*r);
  bool ok = req_ready (*r);
  if (ok && !(*r)->null && S.cfg.policy != sim::ROUND_ROBIN && rnd (4) == 0) ok = false;
  *flag = ok;
  if (ok) { if ((*r)->barrier) leave ((*r)->comm, (*r)->slot); finish_req (r, st); progress (); }
  else poll_fail ();
  return MPI_SUCCESS;
}
int MPI_Testall (int n, MPI_Request r[], int *flag, MPI_Status st[]) {
  S.ncalls++;
  bool ok = true;
  for (int i = 0; i < n; ++i) { checkreq (r[i]); if (!req_ready (r[i])) ok = false; }
  if (ok && n > 0 && S.cfg.policy != sim::ROUND_ROBIN && rnd (4) == 0) ok = false;
  *flag = ok;
  if (ok) for (int i = 0; i < n; ++i) { if (r[i]->barrier) leave (r[i]->comm, r[i]->slot); finish_req (&r[i], st ? &st[i] : nullptr); }
  else poll_fail ();
  return MPI_SUCCESS;
}
int MPI_Request_free (MPI_Request *) { sim_internal ("MPI_Request_free"); }
int MPI_Cancel (MPI_Request *) { sim_internal ("MPI_Cancel"); }

int MPI_Barrier (MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  maybe_yield ();
  Slot *s = join (c, C_BARRIER, -1, 0, K_BYTE, O_NULL, nullptr, 0);
  wait_all (c, s); leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Ibarrier (MPI_Comm cc, MPI_Request *r) {
  ompi_communicator_t *c = resolve (cc);
  maybe_yield ();
  Slot *s = join (c, C_IBARRIER, -1, 0, K_BYTE, O_NULL, nullptr, 0);
  ompi_request_t *q = newreq ();
  q->barrier = true; q->slot = s; q->comm = c;
  *r = q;
  return MPI_SUCCESS;
}
int MPI_Bcast (void *b, int n, MPI_Datatype d, int root, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  size_t bytes = (size_t) n * d->size;
  maybe_yield ();
  Slot *s = join (c, C_BCAST, root, (long) bytes, d->kind, O_NULL, me == root ? b : nullptr, me == root ? bytes : 0);
  if (S.cfg.lax_collectives) block_on ("Bcast", [=] { return s->arrived[root] != 0; });
  else wait_all (c, s);
  if (me != root && bytes) memcpy (b, s->in[root].data (), bytes);
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Allgather (const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  size_t rbytes = (size_t) rn * rd->size;
  size_t bytes = sb == MPI_IN_PLACE ? rbytes : (size_t) sn * sd->size;
  const void *src = sb == MPI_IN_PLACE ? (char *) rb + me * rbytes : sb;
  if (bytes != rbytes) sim_violation ("MPI_Allgather: send and receive sizes differ (%zu and %zu)", bytes, rbytes);
  maybe_yield ();
  Slot *s = join (c, C_ALLGATHER, -1, (long) bytes, sd->kind, O_NULL, src, bytes);
  wait_all (c, s);
  for (size_t r = 0; r < c->group.size (); ++r) if (bytes) memcpy ((char *) rb + r * bytes, s->in[r].data (), bytes);
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Allgatherv (const void *sb, int sn, MPI_Datatype sd, void *rb, const int rn[], const int disp[], MPI_Datatype rd, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  const void *src = sb; size_t bytes;
  if (sb == MPI_IN_PLACE) { src = (char *) rb + disp[me] * rd->size; bytes = rn[me] * rd->size; }
  else bytes = (size_t) sn * sd->size;
  maybe_yield ();
  Slot *s = join (c, C_ALLGATHERV, -1, 0, K_BYTE, O_NULL, src, bytes);
  wait_all (c, s);
  for (size_t r = 0; r < c->group.size (); ++r) {
    size_t want = (size_t) rn[r] * rd->size;
    if (want != s->in[r].size ()) sim_violation ("MPI_Allgatherv: process %zu sends %zu bytes, %zu expected", r, s->in[r].size (), want);
    if (want) memcpy ((char *) rb + disp[r] * rd->size, s->in[r].data (), want);
  }
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Allreduce (const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  size_t bytes = (size_t) n * d->size;
  maybe_yield ();
  Slot *s = join (c, C_ALLREDUCE, -1, (long) bytes, d->kind, op->kind, inplace (sb, rb), bytes);
  wait_all (c, s);
  reduce_range (s, (int) c->group.size (), op, d, rb, n);
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Reduce (const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  size_t bytes = (size_t) n * d->size;
  maybe_yield ();
  Slot *s = join (c, C_REDUCE, root, (long) bytes, d->kind, op->kind, inplace (sb, rb), bytes);
  if (me == root || !S.cfg.lax_collectives) wait_all (c, s);
  if (me == root) reduce_range (s, (int) c->group.size (), op, d, rb, n);
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Reduce_scatter_block (const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur], P = (int) c->group.size ();
  size_t bytes = (size_t) n * d->size * P;
  maybe_yield ();
  Slot *s = join (c, C_RSB, -1, (long) bytes, d->kind, op->kind, inplace (sb, rb), bytes);
  wait_all (c, s);
  Bytes tmp (bytes + 1);
  reduce_range (s, P, op, d, tmp.data (), n * P);
  memcpy (rb, tmp.data () + (size_t) me * n * d->size, (size_t) n * d->size);
  leave (c, s);
  return MPI_SUCCESS;
}
static int scan_common (CollKind k, const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  size_t bytes = (size_t) n * d->size;
  maybe_yield ();
  Slot *s = join (c, k, -1, (long) bytes, d->kind, op->kind, inplace (sb, rb), bytes);
  if (S.cfg.lax_collectives) block_on (collname[k], [=] { for (int r = 0; r < me; ++r) if (!s->arrived[r]) return false; return true; });
  else wait_all (c, s);
  reduce_range (s, k == C_SCAN ? me + 1 : me, op, d, rb, n);
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Scan (const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return scan_common (C_SCAN, sb, rb, n, d, op, c); }
int MPI_Exscan (const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return scan_common (C_EXSCAN, sb, rb, n, d, op, c); }
int MPI_Gather (const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  const void *src = sb; size_t bytes = (size_t) sn * sd->size;
  if (sb == MPI_IN_PLACE) { bytes = (size_t) rn * rd->size; src = (char *) rb + me * bytes; }
  maybe_yield ();
  Slot *s = join (c, C_GATHER, root, (long) bytes, sd->kind, O_NULL, src, bytes);
  if (me == root || !S.cfg.lax_collectives) wait_all (c, s);
  if (me == root) {
    size_t rb1 = (size_t) rn * rd->size;
    if (rb1 != bytes) sim_violation ("MPI_Gather: send and receive sizes differ");
    for (size_t r = 0; r < c->group.size (); ++r) if (bytes) memcpy ((char *) rb + r * bytes, s->in[r].data (), bytes);
  }
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Gatherv (const void *sb, int sn, MPI_Datatype sd, void *rb, const int rn[], const int disp[], MPI_Datatype rd, int root, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur];
  const void *src = sb; size_t bytes = (size_t) sn * sd->size;
  if (sb == MPI_IN_PLACE) { bytes = rn[me] * rd->size; src = (char *) rb + disp[me] * rd->size; }
  maybe_yield ();
  Slot *s = join (c, C_GATHERV, root, 0, K_BYTE, O_NULL, src, bytes);
  if (me == root || !S.cfg.lax_collectives) wait_all (c, s);
  if (me == root)
    for (size_t r = 0; r < c->group.size (); ++r) {
      size_t want = (size_t) rn[r] * rd->size;
      if (want != s->in[r].size ()) sim_violation ("MPI_Gatherv: process %zu sends %zu bytes, %zu expected", r, s->in[r].size (), want);
      if (want) memcpy ((char *) rb + disp[r] * rd->size, s->in[r].data (), want);
    }
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Scatter (const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur], P = (int) c->group.size ();
  size_t bytes = (size_t) (me == root ? sn * sd->size : rn * rd->size);
  maybe_yield ();
  Slot *s = join (c, C_SCATTER, root, (long) bytes, K_BYTE, O_NULL, me == root ? sb : nullptr, me == root ? bytes * P : 0);
  if (S.cfg.lax_collectives) block_on ("Scatter", [=] { return s->arrived[root] != 0; });
  else wait_all (c, s);
  if (rb != MPI_IN_PLACE && bytes) memcpy (rb, s->in[root].data () + me * bytes, bytes);
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Alltoall (const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm cc) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur], P = (int) c->group.size ();
  size_t bytes = (size_t) rn * rd->size;
  if (sb != MPI_IN_PLACE && bytes != (size_t) sn * sd->size) sim_violation ("MPI_Alltoall: send and receive sizes differ");
  maybe_yield ();
  Slot *s = join (c, C_ALLTOALL, -1, (long) bytes, K_BYTE, O_NULL, inplace (sb, rb), bytes * P);
  wait_all (c, s);
  for (int r = 0; r < P; ++r) if (bytes) memcpy ((char *) rb + r * bytes, s->in[r].data () + me * bytes, bytes);
  leave (c, s);
  return MPI_SUCCESS;
}

/* ---- windows */
int MPI_Win_allocate_shared (MPI_Aint size, int disp, MPI_Info, MPI_Comm cc, void *base, MPI_Win *win) {
  ompi_communicator_t *c = resolve (cc);
  int me = c->inv[S.cur], n = (int) c->group.size ();
  int64_t v[2] = { (int64_t) size, disp };
  maybe_yield ();
  Slot *s = join (c, C_WIN, -1, 0, K_BYTE, O_NULL, v, sizeof v);
  wait_all (c, s);
  if (!s->made) {
    s->made = true;
    ompi_win_t *w = new ompi_win_t;
    w->comm = c; w->held.assign (n, 0);
    size_t tot = 0;
    for (int r = 0; r < n; ++r) { int64_t *d = (int64_t *) s->in[r].data (); w->size.push_back (d[0]); w->disp.push_back ((int) d[1]); tot += d[0]; }
    w->mem = (char *) malloc (tot + 1);
    memset (w->mem, 0xA7, tot + 1);
    size_t off = 0;
    for (int r = 0; r < n; ++r) { w->base.push_back (w->mem + off); off += w->size[r]; }
    s->win = w;
    S.wins.push_back (w);
  }
  *win = s->win;
  *(void **) base = s->win->base[me];
  leave (c, s);
  return MPI_SUCCESS;
}
int MPI_Win_create (void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *) { sim_internal ("MPI_Win_create"); }
int MPI_Accumulate (const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win) { sim_internal ("MPI_Accumulate"); }
int MPI_Win_shared_query (MPI_Win w, int r, MPI_Aint *size, int *disp, void *base) {
  if (r == MPI_PROC_NULL) r = 0;
  if (r < 0 || r >= (int) w->base.size ()) sim_violation ("MPI_Win_shared_query with invalid rank %d", r);
  *size = (MPI_Aint) w->size[r]; *disp = w->disp[r]; *(void **) base = w->base[r];
  return MPI_SUCCESS;
}
int MPI_Win_fence (int, MPI_Win w) {
  Slot *s = join (w->comm, C_FENCE, -1, 0, K_BYTE, O_NULL, nullptr, 0);
  wait_all (w->comm, s); leave (w->comm, s);
  return MPI_SUCCESS;
}
int MPI_Win_lock (int, int, int, MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_unlock (int, MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_lock_all (int, MPI_Win w) { if (w == nullptr || w->null) sim_violation ("MPI_Win_lock_all on null window"); w->held[w->comm->inv[S.cur]]++; return MPI_SUCCESS; }
int MPI_Win_unlock_all (MPI_Win w) {
  if (w == nullptr || w->null) sim_violation ("MPI_Win_unlock_all on null window");
  if (--w->held[w->comm->inv[S.cur]] < 0) sim_violation ("MPI_Win_unlock_all without lock");
  return MPI_SUCCESS;
}
int MPI_Win_sync (MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_free (MPI_Win *wp) {
  ompi_win_t *w = *wp;
  if (w == nullptr || w->null) sim_violation ("MPI_Win_free on null window");
  maybe_yield ();
  /* collective over the window's communicator, with barrier semantics */
  ompi_communicator_t *c = w->comm;
  Slot *s = join (c, C_WIN, -1, 1, K_BYTE, O_NULL, nullptr, 0);
  wait_all (c, s);
  if (!s->made) {
    s->made = true;
    free (w->mem);
    S.wins.erase (std::find (S.wins.begin (), S.wins.end (), w));
    delete w;
  }
  leave (c, s);
  *wp = &ompi_mpi_win_null;
  return MPI_SUCCESS;
}

/* ---- files */
int MPI_File_open (MPI_Comm cc, const char *name, int amode, MPI_Info, MPI_File *fh) {
  ompi_communicator_t *c = resolve (cc);
  int fl = 0;
  if (amode & MPI_MODE_RDONLY) fl = O_RDONLY;
  if (amode & MPI_MODE_WRONLY) fl = O_WRONLY;
  if (amode & MPI_MODE_RDWR) fl = O_RDWR;
  maybe_yield ();
  Slot *s = join (c, C_FILE, -1, amode, K_BYTE, O_NULL, nullptr, 0);
  wait_all (c, s);
  if (!s->made) {
    s->made = true;
    if (amode & MPI_MODE_CREATE) { int t = open (name, O_CREAT | O_RDWR | ((amode & MPI_MODE_EXCL) ? O_EXCL : 0), 0644); if (t >= 0) close (t); }
    struct stat sb; s->fsize = stat (name, &sb) ? 0 : (long) sb.st_size;   /* the end of the file when it is opened by all */
  }
  long fsize = s->fsize;
  leave (c, s);
  int fd = open (name, fl);
  if (fd < 0) { *fh = &ompi_mpi_file_null; return MPI_ERR_NO_SUCH_FILE; }
  ompi_file_t *f = new ompi_file_t;
  f->fd = fd; f->rank = S.cur; f->comm = c; f->name = name; f->del = (amode & MPI_MODE_DELETE_ON_CLOSE) != 0;
  if (amode & MPI_MODE_APPEND) f->pos = fsize;
  S.files.push_back (f);
  *fh = f;
  return MPI_SUCCESS;
}
int MPI_File_close (MPI_File *fh) {
  ompi_file_t *f = *fh;
  if (f == nullptr || f->fd < 0) sim_violation ("MPI_File_close on an invalid file");
  maybe_yield ();
  ompi_communicator_t *c = f->comm;
  Slot *s = join (c, C_FILE, -1, -1, K_BYTE, O_NULL, nullptr, 0);
  wait_all (c, s); leave (c, s);
  close (f->fd);
  S.files.erase (std::find (S.files.begin (), S.files.end (), f));
  delete f;
  *fh = &ompi_mpi_file_null;
  return MPI_SUCCESS;
}
static void fstat_set (MPI_Status *st, size_t n) { if (st) { st->MPI_SOURCE = 0; st->MPI_TAG = 0; st->MPI_ERROR = 0; st->_ucount = n; } }
int MPI_File_seek (MPI_File f, MPI_Offset o, int w) {
  if (w == MPI_SEEK_SET) f->pos = o;
  else if (w == MPI_SEEK_CUR) f->pos += o;
  else f->pos = lseek (f->fd, 0, SEEK_END) + o;
  return MPI_SUCCESS;
}
int MPI_File_get_position (MPI_File f, MPI_Offset *o) { *o = f->pos; return MPI_SUCCESS; }
int MPI_File_read_at (MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype d, MPI_Status *st) {
  ssize_t k = pread (f->fd, b, (size_t) n * d->size, o);
  fstat_set (st, k < 0 ? 0 : (size_t) k);
  return k < 0 ? MPI_ERR_IO : MPI_SUCCESS;
}
int MPI_File_write_at (MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype d, MPI_Status *st) {
  ssize_t k = pwrite (f->fd, b, (size_t) n * d->size, o);
  fstat_set (st, k < 0 ? 0 : (size_t) k);
  return k < 0 ? MPI_ERR_IO : MPI_SUCCESS;
}
int MPI_File_read (MPI_File f, void *b, int n, MPI_Datatype d, MPI_Status *st) {
  S.ncalls++; maybe_yield ();
  ssize_t k = pread (f->fd, b, (size_t) n * d->size, f->pos);
  if (k > 0) f->pos += k;
  fstat_set (st, k < 0 ? 0 : (size_t) k);
  return k < 0 ? MPI_ERR_IO : MPI_SUCCESS;
}
int MPI_File_write (MPI_File f, const void *b, int n, MPI_Datatype d, MPI_Status *st) {
  S.ncalls++; maybe_yield ();
  ssize_t k = pwrite (f->fd, b, (size_t) n * d->size, f->pos);
  if (k > 0) f->pos += k;
  fstat_set (st, k < 0 ? 0 : (size_t) k);
  return k < 0 ? MPI_ERR_IO : MPI_SUCCESS;
}
static void file_sync (MPI_File f) {
  Slot *s = join (f->comm, C_FILE, -1, -2, K_BYTE, O_NULL, nullptr, 0);
  wait_all (f->comm, s); leave (f->comm, s);
}
int MPI_File_read_at_all (MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype d, MPI_Status *st) { file_sync (f); return MPI_File_read_at (f, o, b, n, d, st); }
int MPI_File_write_at_all (MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype d, MPI_Status *st) { file_sync (f); return MPI_File_write_at (f, o, b, n, d, st); }
int MPI_File_read_all (MPI_File f, void *b, int n, MPI_Datatype d, MPI_Status *st) { file_sync (f); return MPI_File_read (f, b, n, d, st); }
int MPI_File_write_all (MPI_File f, const void *b, int n, MPI_Datatype d, MPI_Status *st) { file_sync (f); return MPI_File_write (f, b, n, d, st); }
int MPI_File_get_size (MPI_File f, MPI_Offset *o) { *o = lseek (f->fd, 0, SEEK_END); return MPI_SUCCESS; }
int MPI_File_set_size (MPI_File f, MPI_Offset o) { return ftruncate (f->fd, o) ? MPI_ERR_IO : MPI_SUCCESS; }

} /* extern C */

/* -------------------------------------------------------------- scheduler */
namespace sim {

int rank () { return S.cur < 0 || !S.cfg.sub ? S.cur : subworld.inv[S.cur]; }
int world_size () { return S.cfg.P; }
void *world () { return S.cfg.sub ? &subworld : &ompi_mpi_comm_world; }
bool is_sub () { return S.cfg.sub; }
uint64_t calls () { return S.ncalls; }

std::string Report::text () const {
  std::string t;
  auto add = [&] (int n, const char *w) { if (n) t += (t.empty () ? "" : ", ") + std::to_string (n) + " " + w; };
  add (messages, "message(s) never received"); add (requests, "request(s) never completed");
  add (comms, "communicator(s) never freed"); add (windows, "window(s) never freed");
  add (files, "file(s) never closed"); add (types, "datatype(s) never freed");
  return t;
}

void host_barrier () {
  long gen = S.hb_gen;
  if (++S.hb_count == S.cfg.P) { S.hb_count = 0; S.hb_gen++; return; }
  block_on ("host barrier", [=] { return S.hb_gen != gen; });
}

static size_t stacksize () { return 2u << 20; }
static std::vector<char *> stackpool;

void run (const Config & cfg, const std::function<void (int)> & fn, Report * rep) {
  S.cfg = cfg;
  if (S.cfg.nodesize < 1) S.cfg.nodesize = 1;
  S.P = cfg.P + (cfg.sub ? cfg.extra : 0);
  S.rng = cfg.seed * 0x9e3779b97f4a7c15ull + 12345;
  S.fn = fn;
  S.rep = Report ();
  S.nextctx = 10; S.ncalls = 0; S.polls = 0; S.inflight = 0; S.live_req = 0; S.live_types = 0;
  S.msgseq = 0; S.hb_count = 0; S.rr = 0;
  S.f.clear ();
  S.f.resize (S.P);
  S.chan.clear ();
  S.chan.resize ((size_t) S.P * S.P);
  S.reqs.clear ();
  std::vector<int> all (S.P);
  for (int i = 0; i < S.P; ++i) all[i] = i;
  initcomm (&ompi_mpi_comm_world, 0, all);
  if (cfg.sub) {
    std::vector<int> some = all; uint64_t z = cfg.perm;
    for (int i = S.P - 1; i > 0; --i) { z = z * 6364136223846793005ull + 1442695040888963407ull; std::swap (some[i], some[(z >> 33) % (i + 1)]); }
    some.resize (cfg.P);
    initcomm (&subworld, 1, some);
  }
  ompi_mpi_comm_null.null = true;
  ompi_request_null.null = true; ompi_request_null.done = true;
  ompi_mpi_win_null.null = true;
  S.selfcomm.clear ();
  for (int i = 0; i < S.P; ++i) {
    ompi_communicator_t *c = new ompi_communicator_t;
    initcomm (c, -2 - i, { i });
    c->self = true;
    S.selfcomm.push_back (c);
  }
  for (int i = 0; i < S.P; ++i) {
    if ((int) stackpool.size () <= i) {
      char *m = (char *) mmap (nullptr, stacksize () + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == (char *) MAP_FAILED) sim_internal ("mmap");
      mprotect (m, 4096, PROT_NONE);
      stackpool.push_back (m);
    }
    S.f[i].stack = stackpool[i] + 4096; S.f[i].size = stacksize ();
    S.f[i].prio = rnd ();
  }
  int alive = S.P;
  std::vector<int> run, ch;
  while (alive > 0) {
    run.clear (); ch.clear ();
    bool onlypoll = true;
    for (int r = 0; r < S.P; ++r) {
      Fiber & f = S.f[r];
      if (f.finished) continue;
      if (f.pred && !(*f.pred) ()) continue;
      run.push_back (r);
      if (!f.polled) onlypoll = false;
    }
    if (S.inflight)
      for (size_t i = 0; i < S.chan.size (); ++i) if (!S.chan[i].empty ()) ch.push_back ((int) i);
    if (run.empty () && ch.empty ()) {
      std::string t;
      for (int r = 0; r < S.P; ++r) {
        Fiber & f = S.f[r];
        if (f.finished) t += " [" + std::to_string (r) + ": finished]";
        else t += " [" + std::to_string (r) + ": MPI_" + f.what + (f.detail.empty () ? "" : " " + f.detail) + "]";
      }
      sim_violation ("deadlock:%s", t.c_str ());
    }
    int pick = -1, pch = -1;
    switch (S.cfg.policy) {
    case RANDOM: default:
      { size_t k = rnd (run.size () + ch.size ());
        if (k < run.size ()) pick = run[k]; else pch = ch[k - run.size ()]; }
      break;
    case PRIORITY:
      /* random strict priorities with occasional changes; messages have random delay */
      if (!ch.empty () && (run.empty () || onlypoll || rnd (3) == 0)) pch = ch[rnd (ch.size ())];
      else {
        for (int r : run) if (pick < 0 || (S.f[r].polled < S.f[pick].polled) || (S.f[r].polled == S.f[pick].polled && S.f[r].prio > S.f[pick].prio)) pick = r;
        if (rnd (40) == 0) S.f[pick].prio = rnd ();
      }
      break;
    case LATE_DELIVERY:
      if (run.empty () || (onlypoll && !ch.empty ())) pch = ch[rnd (ch.size ())];
      else pick = run[rnd (run.size ())];
      break;
    case LIFO:
      /* highest rank first, deliver from the highest source first and late */
      if (run.empty () || (onlypoll && !ch.empty ())) pch = ch.back ();
      else { for (int r : run) if (pick < 0 || S.f[r].polled <= S.f[pick].polled) pick = r; }
      break;
    case ROUND_ROBIN:
      { size_t k = 0; while (k < run.size () && run[k] < S.rr) ++k; if (k == run.size ()) k = 0; pick = run[k]; S.rr = pick + 1; }
      break;
    }
    if (pch >= 0) { deliver (pch); continue; }
    S.f[pick].polled = false;
    to_fiber (pick);
    if (!S.f[pick].polled) for (auto & f : S.f) f.polled = false;
    if (S.f[pick].finished) alive--;
  }
  /* what is left over */
  for (auto & q : S.chan) { S.rep.messages += (int) q.size (); for (Msg *m : q) delete m; q.clear (); }
  for (auto & f : S.f) { S.rep.messages += (int) f.unexpected.size (); for (Msg *m : f.unexpected) delete m; f.unexpected.clear (); }
  S.rep.requests = S.live_req;
  for (auto *q : S.reqs) delete q;
  S.reqs.clear ();
  S.rep.types = S.live_types;
  for (auto *c : S.comms) {
    if (c->freed != (int) c->group.size ()) S.rep.comms++;
    for (auto & s : c->slots) delete s.second;
    delete c;
  }
  S.comms.clear ();
  for (auto *c : S.selfcomm) delete c;
  S.selfcomm.clear ();
  for (auto & s : ompi_mpi_comm_world.slots) delete s.second;
  ompi_mpi_comm_world.slots.clear ();
  for (auto & s : subworld.slots) delete s.second;
  subworld.slots.clear ();
  S.rep.windows = (int) S.wins.size ();
  for (auto *w : S.wins) { free (w->mem); delete w; }
  S.wins.clear ();
  S.rep.files = (int) S.files.size ();
  for (auto *f : S.files) { close (f->fd); delete f; }
  S.files.clear ();
  S.fn = nullptr;
  if (rep) *rep = S.rep;
}

}
