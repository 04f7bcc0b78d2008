/* The same operations on different process counts and partitions: same mesh, same checksum */
#include "hist_common.h"
namespace DNS {
using namespace eng;
struct Rec { unsigned sum = 0, part = 0; };

static void check_sums (p4est_t * p, std::vector<unsigned> & sums, std::vector<unsigned> & parts) {
  int r = sim::rank ();
  sums[r] = p4est_checksum (p); parts[r] = p4est_checksum_partition (p);
  sim::host_barrier ();
  for (size_t i = 0; i < sums.size (); ++i) {
    CHECK (sums[i] == sums[0], "checksum %08x on process 0 but %08x on process %zu", sums[0], sums[i], i);
    CHECK (parts[i] == parts[0], "partition checksum %08x on process 0 but %08x on process %zu", parts[0], parts[i], i);
  }
  sim::host_barrier ();
}
static void two_runs () {
  History h; HistOpts o; o.partition_independent = true; o.given_only_uniform_new = true; o.maxops = 5; o.maxleaves = 500;
  o.w[OP_PARTITION] = 10; o.w[OP_COARSEN] = 25; o.w[OP_REFINE] = 40;
  if (thorough ()) { o.maxops = 9; o.maxleaves = 2000; }
  draw_history (h, o);
  History g;
  g.conn = h.conn; g.cfg = draw_sim (17); g.new_level = h.new_level; g.fill = h.fill; g.new_init = h.new_init; g.data_size = h.data_size; g.newop = h.newop;
  g.st.push_back (new_state (g, g.cfg.P));
  std::vector<int> at (1, -1);    /* operation index in g that corresponds to the states of h */
  std::string txt;
  auto add = [&] (const Op & op) {
    State s;
    if (!apply_model (g.st.back (), op, g.cfg.P, 1 << 24, s)) internal ("second history not applicable");
    g.ops.push_back (op); g.st.push_back (s); txt += " | " + op.text ();
  };
  for (size_t i = 0; i < h.ops.size (); ++i) {
    Op op = h.ops[i];
    if (chance (40)) { Op p; p.kind = OP_PARTITION; p.pmode = 2; p.given = draw_cuts (g.st.back ().f.count (), g.cfg.P); add (p); }
    if (op.kind == OP_COARSEN) { Op p; p.kind = OP_PARTITION; p.pfc = true; p.pmode = 0; add (p); }
    if (op.kind == OP_PARTITION && op.pmode == 2) op.given = draw_cuts (g.st.back ().f.count (), g.cfg.P);
    add (op);
    at.push_back ((int) g.ops.size () - 1);
    if (flat (g.st.back ().f).size () != flat (h.st[i + 1].f).size ()) internal ("the model depends on the partition");
  }
  describe ("second run on %d processes:%s; ", g.cfg.P, txt.c_str ());
  if (g.cfg.P != h.cfg.P && effective (h, -1)) nontrivial ();
  label ("mode two runs");
  std::vector<Rec> a (h.st.size ()), b (h.st.size ());
  int run = 0;
  for (const History *k : { (const History *) &h, (const History *) &g }) {
    std::vector<unsigned> sums (k->cfg.P), parts (k->cfg.P);
    auto & out = run ? b : a;
    run_history (*k, [&] (Runner & r, int i) {
      int idx = -1;
      if (!run) idx = i + 1;
      else for (size_t j = 0; j < at.size (); ++j) if (at[j] == i) idx = (int) j;
      if (idx < 0) return;
      check_sums (r.p, sums, parts);
      if (r.rank == 0) { out[idx].sum = sums[0]; out[idx].part = parts[0]; }
    });
    run++;
  }
  for (size_t i = 0; i < a.size (); ++i) CHECK (a[i].sum == b[i].sum, "after %zu operations the checksum is %08x on %d processes and %08x on %d", i, a[i].sum, h.cfg.P, b[i].sum, g.cfg.P);
  /* equal meshes within one history have equal checksums */
  for (size_t i = 0; i < a.size (); ++i) for (size_t j = 0; j < i; ++j) {
    bool same = true;
    for (int t = 0; t < h.conn.nt && same; ++t) same = h.st[i].f.t[t] == h.st[j].f.t[t];
    if (same) CHECK (a[i].sum == a[j].sum, "the same mesh has checksums %08x and %08x", a[i].sum, a[j].sum);
    if (same && h.st[i].cuts == h.st[j].cuts) CHECK (a[i].part == a[j].part, "the same mesh and partition has partition checksums %08x and %08x", a[i].part, a[j].part);
  }
}
/* a changed leaf changes the checksum; accidental collisions are tolerated unless every variant collides */
static void variants () {
  Built b; BuildOpts o; o.maxleaves = 120; o.maxP = 6; o.data = false;
  draw_built (b, o);
  const int NV = 5;
  std::vector<unsigned> sum (NV + 1), part (NV + 1), psum (NV + 1);
  std::vector<size_t> pick; Forest base = b.forest;
  auto fl = flat (base);
  for (int v = 0; v <= NV; ++v) {
    size_t k = draw (fl.size ());
    for (size_t tries = 0; tries < fl.size () && (std::count (pick.begin (), pick.end (), k) || fl[k].l.level >= QML); ++tries) k = (k + 1) % fl.size ();
    pick.push_back (k);
  }
  std::set<size_t> u (pick.begin (), pick.end ());
  label ("mode variants");
  if (u.size () != pick.size ()) discard ();
  nontrivial ();
  TagFn tag = [] (int, const Leaf &) { return 0; };
  auto run = [&] (unsigned & s, unsigned & pt) {
    std::vector<unsigned> sums (b.cfg.P), parts (b.cfg.P);
    sim::run (b.cfg, [&] (int) { p4est_t *p = build (b); check_sums (p, sums, parts); destroy (p); });
    s = sums[0]; pt = parts[0];
  };
  int coll = 0;
  for (int v = 0; v <= NV; ++v) {
    b.forest = base;
    auto & T = b.forest.t[fl[pick[v]].tree];
    int i = b.forest.find (fl[pick[v]].tree, fl[pick[v]].l.key);
    Leaf l = T[i]; T.erase (T.begin () + i);
    for (int c = NCH - 1; c >= 0; --c) T.insert (T.begin () + i, l.child (c));
    b.leaves = flat (b.forest); b.cuts = uniform_cuts ((i64) b.leaves.size (), b.cfg.P);
    run (sum[v], part[v]);
    if (v && sum[v] == sum[0]) coll++;
  }
  CHECK (coll < NV, "the checksum %08x is the same for %d meshes that differ", sum[0], NV + 1);
  checks (NV);
  if (b.cfg.P > 1 && b.leaves.size () > 12) {
    int pc = 0;
    for (int v = 0; v <= NV; ++v) {
      b.cuts = uniform_cuts ((i64) b.leaves.size (), b.cfg.P);
      b.cuts[1] = (i64) v + (b.cuts[2] - NV > 0 ? 0 : 0);
      for (int q = 2; q < b.cfg.P; ++q) b.cuts[q] = std::max (b.cuts[q], b.cuts[1]);
      run (psum[v], part[v]);
      CHECK (psum[v] == sum[NV], "the checksum of the same mesh is %08x for one partition and %08x for another", psum[v], sum[NV]);
      if (v && part[v] == part[0]) pc++;
    }
    CHECK (pc < NV, "the partition checksum %08x is the same for %d partitions", part[0], NV + 1);
  }
}
void prop () { if (weighted ({ 75, 25 }) == 0) two_runs (); else variants (); }
}
