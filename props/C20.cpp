/* Data of a leaf sequence moved from one partition to another */
#include "harness.h"
#include <mpi.h>
namespace DNS {
using namespace eng;
enum { FIXED = 0, CUSTOM, ITEMS };
struct Tr { int kind = 0, comm = 0, tag = 0; bool split = false, ask = false, anyend = false; size_t size = 0; u64 seed = 0; Cuts dest, src; int sparse = 0;
  int count (i64 g) const { u64 h = mix (seed, 7, (u64) g); return (int) (h % 100) < sparse ? 0 : (int) ((h >> 20) % (kind == CUSTOM ? 40 : 5)); }
  size_t bytes (i64 g) const { return kind == FIXED ? size : kind == CUSTOM ? (size_t) count (g) : count (g) * size; }
};
struct Msg { int from, to, tag, n; bool early; u64 seed; };
struct Live {                    /* one process' side of a transfer */
  const Tr *t; int me; std::vector<p4est_gloidx_t> d, s; unsigned char *dd = nullptr, *sd = nullptr; int *dc = nullptr, *sc = nullptr; p4est_transfer_context_t *c = nullptr; size_t nd = 0, ns = 0;
};
static const char *kname[] = { "fixed", "custom", "items" };
static void start (Live & L, const Tr & t, MPI_Comm comm, int me, int me_sub, bool sub) {
  L.t = &t; L.me = me; (void) sub;
  for (i64 c : t.dest) L.d.push_back (c);
  for (i64 c : t.src) L.s.push_back (c);
  i64 d0 = t.dest[me_sub], d1 = t.dest[me_sub + 1], s0 = t.src[me_sub], s1 = t.src[me_sub + 1];
  for (i64 g = d0; g < d1; ++g) L.nd += t.bytes (g);
  for (i64 g = s0; g < s1; ++g) L.ns += t.bytes (g);
  if (L.nd || (t.seed & 1)) { L.dd = (unsigned char *) malloc (L.nd + 1); memset (L.dd, 0xd5, L.nd + 1); }
  if (L.ns || (t.seed & 2)) { L.sd = (unsigned char *) malloc (L.ns + 1); unsigned char *w = L.sd; for (i64 g = s0; g < s1; ++g) { fill_bytes (w, t.bytes (g), mix (t.seed, (u64) g)); w += t.bytes (g); } }
  if (t.kind != FIXED) {
    L.dc = (int *) malloc ((d1 - d0) * sizeof (int) + 1); L.sc = (int *) malloc ((s1 - s0) * sizeof (int) + 1);
    for (i64 g = s0; g < s1; ++g) L.sc[g - s0] = t.count (g);
    if (t.ask) {                /* the sizes come from the sender, as the documentation suggests */
      memset (L.dc, 0xff, (d1 - d0) * sizeof (int));
      p4est_transfer_fixed (L.d.data (), L.s.data (), comm, t.tag, d1 > d0 ? L.dc : nullptr, s1 > s0 ? L.sc : nullptr, sizeof (int));
    }
    else for (i64 g = d0; g < d1; ++g) L.dc[g - d0] = t.count (g);
    if (d0 == d1 && (t.seed & 4)) { free (L.dc); L.dc = nullptr; }
    if (s0 == s1 && (t.seed & 4)) { free (L.sc); L.sc = nullptr; }
  }
}
static void begin (Live & L, MPI_Comm comm) {
  const Tr & t = *L.t; auto *d = L.d.data (), *s = L.s.data ();
  if (t.split) L.c = t.kind == FIXED ? p4est_transfer_fixed_begin (d, s, comm, t.tag, L.dd, L.sd, t.size) : t.kind == CUSTOM ? p4est_transfer_custom_begin (d, s, comm, t.tag, L.dd, L.dc, L.sd, L.sc)
    : p4est_transfer_items_begin (d, s, comm, t.tag, L.dd, L.dc, L.sd, L.sc, t.size);
  else if (t.kind == FIXED) p4est_transfer_fixed (d, s, comm, t.tag, L.dd, L.sd, t.size);
  else if (t.kind == CUSTOM) p4est_transfer_custom (d, s, comm, t.tag, L.dd, L.dc, L.sd, L.sc);
  else p4est_transfer_items (d, s, comm, t.tag, L.dd, L.dc, L.sd, L.sc, t.size);
}
static void end (Live & L, int me_sub) {
  const Tr & t = *L.t;
  if (t.split) { if (t.anyend) p4est_transfer_end (L.c); else if (t.kind == FIXED) p4est_transfer_fixed_end (L.c); else if (t.kind == CUSTOM) p4est_transfer_custom_end (L.c); else p4est_transfer_items_end (L.c); }
  i64 d0 = t.dest[me_sub], d1 = t.dest[me_sub + 1], s0 = t.src[me_sub], s1 = t.src[me_sub + 1];
  auto ctx = [&] { return "process " + std::to_string (L.me) + ": transfer of " + kname[t.kind] + " size " + std::to_string (t.size) + (t.split ? " split" : ""); };
  unsigned char *r = L.dd;
  for (i64 g = d0; g < d1; ++g) {
    if (t.kind != FIXED && L.dc) CHECK (L.dc[g - d0] == t.count (g), "%s: size of leaf %lld is %d, expected %d", ctx ().c_str (), (long long) g, L.dc[g - d0], t.count (g));
    size_t n = t.bytes (g);
    CHECK (check_bytes (r, n, mix (t.seed, (u64) g)), "%s delivered wrong bytes for leaf %lld (%zu bytes)", ctx ().c_str (), (long long) g, n);
    r += n;
  }
  if (L.dd) CHECK (*r == 0xd5, "%s wrote past the end", ctx ().c_str ());
  r = L.sd;
  for (i64 g = s0; g < s1; ++g) { CHECK (check_bytes (r, t.bytes (g), mix (t.seed, (u64) g)), "%s changed the data to send", ctx ().c_str ()); r += t.bytes (g); }
  for (size_t i = 0; i < L.d.size (); ++i) CHECK (L.d[i] == t.dest[i] && L.s[i] == t.src[i], "%s changed a partition", ctx ().c_str ());
  free (L.dd); free (L.sd); free (L.dc); free (L.sc);
  eng::checks (d1 - d0 + 1);
}
void prop () {
  bool forest = chance (25);
  Built b; sim::Config cfg; i64 n;
  if (forest) { BuildOpts o; o.maxP = 9; o.maxleaves = 120; draw_built (b, o); cfg = b.cfg; n = (i64) b.leaves.size (); }
  else { cfg = draw_sim (thorough () ? 20 : 13); n = chance (10) ? draw (3) : draw (thorough () ? 400 : 150); }
  int P = cfg.P;
  /* communicators: the world, a duplicate, a reversed one, a part of the processes */
  int nc = range (1, 4); std::vector<int> sub (P, 0); for (int & c : sub) c = (int) draw (2);
  auto members = [&] (int c) { std::vector<int> m; for (int r = 0; r < P; ++r) if (c != 3 || sub[r]) m.push_back (r); if (c == 2) std::reverse (m.begin (), m.end ()); return m; };
  std::vector<Tr> tr; int nt = range (1, 4); bool moves = false;
  for (int i = 0; i < nt; ++i) {
    Tr t; t.comm = (int) draw (nc); t.tag = 100 + (int) draw (2) * 1000 + i; t.kind = (int) draw (3); t.split = draw (2); t.ask = draw (2); t.anyend = chance (20); t.seed = draw64 ();
    static const size_t sz[] = { 8, 1, 4, 0, 16, 3, 57, 200 };
    t.size = sz[draw (8)]; t.sparse = draw (2) ? 0 : range (0, 100);
    int Q = (int) members (t.comm).size ();
    if (Q == 0) continue;
    i64 m = i && draw (3) == 0 ? (i64) draw (n + 1) : n;
    t.src = draw_cuts (m, Q); t.dest = draw_cuts (m, Q); if (chance (10)) t.dest = t.src;
    if (t.kind != FIXED && t.size == 0 && draw (3)) t.size = 2;
    moves |= t.src != t.dest && t.size;
    label ("%s%s", kname[t.kind], t.split ? " split" : "");
    describe ("%s%s size %zu on comm %d tag %d, %lld leaves; ", kname[t.kind], t.split ? " split" : "", t.size, t.comm, t.tag, (long long) m);
    tr.push_back (t);
  }
  std::vector<Msg> msgs; for (int i = (int) draw (6) - 1; i > 0; --i) { Msg m { (int) draw (P), (int) draw (P), 5000 + (int) msgs.size (), range (0, 60), draw (2) != 0, draw64 () }; if (m.from != m.to) msgs.push_back (m); }
  Cuts want; i64 ntags = 0; (void) ntags;
  if (forest) { want = draw_cuts (n, P); describe ("and p4est_partition; "); label ("with p4est_partition"); moves |= want != b.cuts; }
  describe ("P %d policy %d buf %d, %zu other messages; ", P, cfg.policy, cfg.buffering, msgs.size ());
  if (moves && P > 1) nontrivial ();
  u64 order = draw64 ();
  MemMark mark = mem_mark (); sim::Report rep;
  sim::run (cfg, [&] (int r) {
    MPI_Comm comm[4] = { MPI_COMM_WORLD, MPI_COMM_NULL, MPI_COMM_NULL, MPI_COMM_NULL };
    if (nc > 1) MPI_Comm_dup (MPI_COMM_WORLD, &comm[1]);
    if (nc > 2) MPI_Comm_split (MPI_COMM_WORLD, 0, -r, &comm[2]);
    if (nc > 3) MPI_Comm_split (MPI_COMM_WORLD, sub[r] ? 0 : MPI_UNDEFINED, r, &comm[3]);
    std::vector<MPI_Request> req; std::vector<std::vector<unsigned char>> buf (msgs.size ());
    for (size_t i = 0; i < msgs.size (); ++i) { const Msg & m = msgs[i]; buf[i].assign (m.n + 1, 0);
      if (m.from == r) { fill_bytes (buf[i].data (), m.n, m.seed); req.push_back (MPI_REQUEST_NULL); MPI_Isend (buf[i].data (), m.n, MPI_BYTE, m.to, m.tag, MPI_COMM_WORLD, &req.back ()); }
      if (m.to == r && m.early) { req.push_back (MPI_REQUEST_NULL); MPI_Irecv (buf[i].data (), m.n, MPI_BYTE, m.from, m.tag, MPI_COMM_WORLD, &req.back ()); } }
    if (forest) {
      p4est_t *p = build (b);
      std::vector<p4est_gloidx_t> src (p->global_first_quadrant, p->global_first_quadrant + P + 1);
      std::vector<p4est_locidx_t> num; for (int q = 0; q < P; ++q) num.push_back ((p4est_locidx_t) (want[q + 1] - want[q]));
      std::vector<u64> mine, got (want[r + 1] - want[r] + 1, 0);
      for (i64 g = b.cuts[r]; g < b.cuts[r + 1]; ++g) mine.push_back (b.leaves[g].l.tag);
      mine.push_back (0);
      p4est_partition_given (p, num.data ());
      p4est_transfer_context_t *c = p4est_transfer_fixed_begin (p->global_first_quadrant, src.data (), p->mpicomm, 11, got.data (), mine.data (), 8);
      p4est_transfer_fixed_end (c);
      for (i64 g = want[r]; g < want[r + 1]; ++g) CHECK (got[g - want[r]] == b.leaves[g].l.tag, "process %d: transfer after p4est_partition_given delivers wrong data of leaf %lld", r, (long long) g);
      eng::checks (want[r + 1] - want[r]);
      destroy (p);
    }
    std::vector<int> mys (4, -1); for (int c = 0; c < nc; ++c) { auto m = members (c); for (size_t i = 0; i < m.size (); ++i) if (m[i] == r) mys[c] = (int) i; }
    std::vector<Live> L (tr.size ());
    for (size_t i = 0; i < tr.size (); ++i) if (mys[tr[i].comm] >= 0) start (L[i], tr[i], comm[tr[i].comm], r, mys[tr[i].comm], tr[i].comm == 3);
    /* the split ones are begun in any order, then the blocking ones run in between, then all end in any order */
    std::vector<int> idx; for (size_t i = 0; i < tr.size (); ++i) if (mys[tr[i].comm] >= 0) idx.push_back ((int) i);
    auto shuffle = [&] (u64 s) { for (size_t i = idx.size (); i > 1; --i) std::swap (idx[i - 1], idx[(s = mix (s)) % i]); };
    shuffle (mix (order, r));
    for (int i : idx) if (tr[i].split) begin (L[i], comm[tr[i].comm]);
    std::sort (idx.begin (), idx.end ());
    for (int i : idx) if (!tr[i].split) begin (L[i], comm[tr[i].comm]);
    shuffle (mix (order, r, 5));
    for (int i : idx) end (L[i], mys[tr[i].comm]);
    for (size_t i = 0; i < msgs.size (); ++i) if (msgs[i].to == r && !msgs[i].early) { req.push_back (MPI_REQUEST_NULL); MPI_Irecv (buf[i].data (), msgs[i].n, MPI_BYTE, msgs[i].from, msgs[i].tag, MPI_COMM_WORLD, &req.back ()); }
    MPI_Waitall ((int) req.size (), req.data (), MPI_STATUSES_IGNORE);
    for (size_t i = 0; i < msgs.size (); ++i) if (msgs[i].to == r) CHECK (check_bytes (buf[i].data (), msgs[i].n, msgs[i].seed), "process %d: another message in flight arrives changed", r);
    for (int c = 1; c < nc; ++c) if (comm[c] != MPI_COMM_NULL) MPI_Comm_free (&comm[c]);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after the transfers");
}
}
