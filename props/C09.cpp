/* Balance: compared with a fixed-point model; partition independence; the seed primitive */
#include "hist_common.h"
#if VDIM == 3
#include <p8est_balance.h>
#else
#include <p4est_balance.h>
#endif
namespace DNS {
using namespace eng;

static bool contained (const Forest & coarse, const Forest & fine) {    /* fine refines coarse */
  for (size_t t = 0; t < coarse.t.size (); ++t)
    for (auto & l : fine.t[t]) if (coarse.t[t][coarse.find ((int) t, l.key)].level > l.level) return false;
  return true;
}
static void gather (p4est_t * p, Forest & f) {   /* appended in the order of the processes */
  if (p->first_local_tree < 0) return;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) f.t[t].push_back (leaf_of (p4est_quadrant_array_index (&tr->quadrants, z)));
  }
}

static void bounded () {
  Built b; BuildOpts o; o.maxleaves = 250; o.maxP = 9; o.data = false;
  o.wide = 40;
  draw_built (b, o);
  int codim = range (1, DIM);
  int P2 = draw_P (6);
  bool again = chance (50);
  describe ("balance codim %d, then %d processes; ", codim, P2);
  Forest lo = b.forest, hi = b.forest; bool over = false;
  TagFn tag = [&] (int, const Leaf &) { return 0; };
  balance (lo, codim, tag, 2500, &over);
  if (!over) balance (hi, DIM, tag, 2500, &over);
  if (over) discard ();
  bool exact = codim == DIM || b.conn.regular;
  if (lo.count () != b.forest.count ()) nontrivial ();
  label ("mode bounded"); if (!exact) label ("irregular, lower codim");
  std::vector<Forest> res (2);
  for (int run = 0; run < 2; ++run) {
    if (run == 1) { b.cfg.P = P2; b.cuts = uniform_cuts ((i64) b.leaves.size (), P2); }
    Forest & g = res[run]; g.conn = &b.conn; g.t.assign (b.conn.nt, {});
    std::vector<Forest> part (b.cfg.P); for (auto & f : part) f.t.assign (b.conn.nt, {});
    sim::run (b.cfg, [&] (int r) {
      p4est_t *p = build (b);
      p4est_balance (p, btype_of (codim), nullptr);
      CHECK (p4est_is_balanced (p, btype_of (codim)), "the balanced forest is not balanced");
      CHECK (p4est_is_valid (p), "the balanced forest is not valid");
      gather (p, part[r]);
      sim::host_barrier ();
      if (r == 0) for (auto & f : part) for (int t = 0; t < b.conn.nt; ++t) g.t[t].insert (g.t[t].end (), f.t[t].begin (), f.t[t].end ());
      sim::host_barrier ();
      if (again) {
        i64 n = p->global_num_quadrants; long rev = p4est_revision (p);
        p4est_balance (p, btype_of (codim), nullptr);
        CHECK (p->global_num_quadrants == n && p4est_revision (p) == rev, "balancing a second time changes the forest from %lld to %lld leaves, revision %ld to %ld",
               (long long) n, (long long) p->global_num_quadrants, rev, p4est_revision (p));
      }
      destroy (p);
    });
    checks ((u64) g.count ());
    if (exact) {
      for (int t = 0; t < b.conn.nt; ++t) CHECK (g.t[t] == lo.t[t], "tree %d differs from the coarsest balanced refinement (%zu leaves, expected %zu)", t, g.t[t].size (), lo.t[t].size ());
    }
    else {
      CHECK (contained (lo, g), "the result is coarser than the coarsest balanced refinement");
      CHECK (contained (g, hi), "the result is finer than the coarsest refinement balanced at the corners");
      CHECK (is_balanced (g, codim), "the result is not balanced");
    }
  }
  if (exact) for (int t = 0; t < b.conn.nt; ++t) CHECK (res[0].t[t] == res[1].t[t], "tree %d differs between two process counts", t);
}

/* coarsest subtree of root p that contains the seeds == coarsest subtree of p balanced with q */
static void seeds () {
  static Conn unit; if (unit.nt == 0) { p4est_connectivity_t *c = p4est_connectivity_new_byname ("unit"); unit.from (c); p4est_connectivity_destroy (c); }
  int codim = range (1, DIM), lp = 2, lq = range (lp, lp + 6);
  i64 x[3] = { qlen (2), qlen (2), DIM == 3 ? qlen (2) : 0 };
  Leaf p { interleave (x), lp, 0 };
  int d[3]; bool zero = true;
  for (int i = 0; i < 3; ++i) { d[i] = i < DIM ? (int) draw (3) - 1 : 0; zero &= d[i] == 0; }
  i64 y[3] = { 0, 0, 0 };
  for (int i = 0; i < DIM; ++i) {
    i64 n = (i64) 1 << (lq - lp), k = chance (50) ? (i64) draw (std::min<i64> (n, 8)) : (i64) draw (n);
    y[i] = d[i] < 0 ? x[i] - (k + 1) * qlen (lq) : d[i] > 0 ? x[i] + qlen (lp) + k * qlen (lq) : x[i] + (chance (50) ? k : n - 1 - k) * qlen (lq);
  }
  Leaf q { interleave (y), lq, 0 };
  describe ("seeds of %s for %s, codim %d; ", str (q).c_str (), str (p).c_str (), codim);
  label ("mode seeds");
  if (lq > lp + 1) nontrivial ();
  TagFn tag = [] (int, const Leaf &) { return 0; };
  auto forest_with = [&] (const std::vector<Leaf> & in) {
    Forest f; f.conn = &unit; f.t.resize (1); f.t[0].push_back (Leaf { 0, 0, 0 });
    for (auto & s : in) for (;;) {
      int k = f.find (0, s.key); Leaf l = f.t[0][k];
      if (l.level >= s.level) break;
      std::vector<Leaf> c; for (int j = 0; j < NCH; ++j) c.push_back (l.child (j));
      f.t[0].erase (f.t[0].begin () + k); f.t[0].insert (f.t[0].begin () + k, c.begin (), c.end ());
    }
    bool over = false; balance (f, codim, tag, 100000, &over);
    std::vector<Leaf> out; for (auto & l : f.t[0]) if (l.key >= p.key && l.key < p.end ()) out.push_back (l);
    return out;
  };
  p4est_quadrant_t pq = quad_of (p), qq = quad_of (q);
  sc_array_t *s = sc_array_new (sizeof (p4est_quadrant_t));
  int split = p4est_balance_seeds (&qq, &pq, btype_of (codim), s);
  int split0 = p4est_balance_seeds (&qq, &pq, btype_of (codim), nullptr);
  std::vector<Leaf> sv;
  for (size_t z = 0; z < s->elem_count; ++z) sv.push_back (leaf_of ((p4est_quadrant_t *) sc_array_index (s, z)));
  sc_array_destroy (s);
  CHECK (!split == !split0, "the answer depends on whether seeds are requested");
  std::vector<Leaf> want = forest_with ({ p, q });
  bool wsplit = want.size () > 1 && lq > lp + 1;
  if (zero && lq == lp + 1) wsplit = false;     /* such a small difference is never a reason to split */
  CHECK (!split == !wsplit, "split is %d, expected %d", split, (int) wsplit);
  if (!split) return;
  for (auto & l : sv) CHECK (l.level > p.level && l.key >= p.key && l.key < p.end (), "seed %s is not inside", str (l).c_str ());
  sv.push_back (p);
  std::vector<Leaf> got = forest_with (sv);
  CHECK (got == want, "the seeds produce %zu leaves instead of %zu", got.size (), want.size ());
  checks (want.size ());
}
void prop () {
  switch (weighted ({ 50, 30, 20 })) {
  case 0: {
    History h; HistOpts o;
    o.w[OP_REFINE] = 40; o.w[OP_COARSEN] = 5; o.w[OP_BALANCE] = 50; o.w[OP_PARTITION] = 15; o.w[OP_COPY] = 0; o.w[OP_RESET] = 2;
    o.maxops = 4;
    if (thorough ()) { o.maxops = 8; o.maxleaves = 2500; }
    draw_history (h, o);
    if (effective (h, OP_BALANCE)) nontrivial ();
    label ("mode history");
    run_history (h);
    break; }
  case 1: bounded (); break;
  case 2: seeds (); break;
  }
}
}
