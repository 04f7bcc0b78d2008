/* A forest made from points */
#include "harness.h"
#include <mpi.h>
#if VDIM == 3
#include <p8est_points.h>
#else
#include <p4est_points.h>
#endif
namespace DNS {
using namespace eng;
struct Ptx { int tree; Pt x; Key k; bool operator< (const Ptx & o) const { return tree != o.tree ? tree < o.tree : k < o.k; } };
struct Ctx { u64 seed = 0; size_t size = 0; int calls = 0; bool bad = false; };
static void init_pt (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) {
  Ctx *c = (Ctx *) p->user_pointer; Leaf l = leaf_of (q); c->calls++; if (p->data_size != c->size) { c->bad = true; return; }
  fill_bytes (q->p.user_data, c->size, mix (c->seed, mix ((u64) t, kh (l.key), (u64) l.level)));
}
static void cover (const Leaf & c, Key lo, Key hi, Tree & out) {
  if (c.end () <= lo || c.key >= hi) return;
  if (lo <= c.key && c.end () <= hi) { out.push_back (c); return; }
  for (int k = 0; k < NCH; ++k) cover (c.child (k), lo, hi, out);
}
void prop () {
  Conn conn = draw_conn (12); sim::Config cfg = draw_sim (thorough () ? 17 : 11); int P = cfg.P, nt = conn.nt;
  int maxlevel = weighted ({ 60, 25, 15 }); maxlevel = maxlevel == 0 ? range (0, 5) : maxlevel == 1 ? range (0, 12) : QML - (int) draw (3);
  int maxpoints = chance (8) ? -1 : chance (15) ? 0 : range (1, 6); if (maxpoints == 0 && maxlevel > 3) maxpoints = 1;
  /* points in clusters, with duplicates */
  int n = chance (5) ? 0 : range (1, thorough () ? 250 : 90), shape = weighted ({ 30, 30, 20, 20 });
  std::vector<Ptx> pts; std::vector<Ptx> centre;
  auto any = [&] { Ptx p; p.tree = (int) draw (nt); for (int a = 0; a < DIM; ++a) { i64 v = (i64) draw (RL); v &= ~(i64) 1; if (draw (12) == 0) v = draw (2) ? RL - 1 : 0; if (v == RL - 2 && draw (2)) v = RL - 1; p.x.x[a] = v; } return p; };
  for (int i = 0; i < 3; ++i) centre.push_back (any ());
  for (int i = 0; i < n; ++i) {
    Ptx p = any ();
    if (shape && i && draw (4)) { p = shape == 1 ? centre[draw (3)] : pts[draw (i)]; if (shape != 3 || draw (2)) { i64 w = (i64) 1 << range (1, draw (2) ? ML - maxlevel + 1 : ML - 1); for (int a = 0; a < DIM; ++a) { i64 v = p.x.x[a] + (i64) draw (2 * w) - w; v = std::max<i64> (0, std::min (v, RL - 1)); p.x.x[a] = v == RL - 1 ? v : v & ~(i64) 1; } } }
    i64 e[3]; for (int a = 0; a < DIM; ++a) e[a] = p.x.x[a]; p.k = interleave (e); pts.push_back (p);
  }
  Cuts cnt = draw_cuts (n, P); if (chance (60)) cnt = uniform_cuts (n, P);
  int fixture = 0; if (n > 0 && draw (4) == 0) { fixture = 1; /* presorted, the easiest way to split a cell between processes */ std::sort (pts.begin (), pts.end ()); }
  std::vector<Ptx> sorted = pts; std::sort (sorted.begin (), sorted.end ());
  /* first positions: the cell of the first point, the beginning for process 0 */
  std::vector<std::pair<int, Key>> pos (P + 1); pos[P] = { nt, 0 };
  for (int r = P; r-- > 0;) { if (r == 0) pos[r] = { 0, 0 }; else if (cnt[r] == cnt[r + 1]) pos[r] = pos[r + 1]; else pos[r] = { sorted[cnt[r]].tree, sorted[cnt[r]].k & ~(qvol (maxlevel) - 1) }; }
  Forest f; f.conn = &conn; f.t.resize (nt); Cuts cuts { 0 }; bool over = false; int split = 0;
  Ctx model; model.seed = draw64 (); static const size_t sz[] = { 8, 0, 4, 40, 1 }; model.size = sz[draw (5)]; bool useinit = draw (4) != 0;
  for (int r = 0; r < P; ++r) {
    i64 total = 0; auto lo = pos[r], hi = pos[r + 1];
    for (int t = lo.first; t <= hi.first && t < nt; ++t) {
      Key a = t == lo.first ? lo.second : 0, z = t == hi.first ? hi.second : qvol (0);
      if (a >= z) continue;
      Tree base; cover (Leaf { 0, 0, 0 }, a, z, base);
      std::function<void (const Leaf &)> rec = [&] (const Leaf & l) {
        auto b = std::lower_bound (sorted.begin (), sorted.end (), Ptx { t, {}, l.key }), e = std::lower_bound (sorted.begin (), sorted.end (), Ptx { t, {}, l.end () });
        if (over || maxpoints < 0 || l.level >= maxlevel || e - b <= maxpoints) { Leaf x = l; x.tag = mix (model.seed, mix ((u64) t, kh (l.key), (u64) l.level)); f.t[t].push_back (x); if (++total > 4000) over = true; return; }
        ++split; for (int k = 0; k < NCH; ++k) rec (l.child (k));
      };
      for (auto & l : base) rec (l);
    }
    cuts.push_back (cuts.back () + total);
  }
  if (over || cuts.back () > 6000) discard ();
  int shared = 0, empty = 0; for (int r = 1; r < P; ++r) if (cnt[r] < cnt[r + 1] && cnt[r] > 0 && std::make_pair (sorted[cnt[r] - 1].tree, sorted[cnt[r] - 1].k & ~(qvol (maxlevel) - 1)) == pos[r]) shared++;
  for (int r = 0; r < P; ++r) empty += cnt[r] == cnt[r + 1];
  if (shared) label ("a cell's points are on several processes"); if (empty) label ("a process without points"); if (cnt[1] == 0) label ("process 0 without points"); if (maxpoints < 0) label ("no refinement"); if (n == 0) label ("no points");
  describe ("conn %s, %d points shape %d%s, level <= %d, %d per leaf -> %lld leaves, P %d policy %d, %d split cells, %d empty; ", conn.name.c_str (), n, shape, fixture ? " sorted" : "", maxlevel, maxpoints, (long long) cuts.back (), P, cfg.policy, shared, empty);
  if (split && n > 1) nontrivial ();
  std::vector<std::vector<Ptx>> got (P);
  MemMark mark = mem_mark (); sim::Report rep;
  sim::run (cfg, [&] (int r) {
    p4est_connectivity_t *c = conn.make ();
    i64 m = cnt[r + 1] - cnt[r]; Ctx ctx = model;
    p4est_quadrant_t *q = (p4est_quadrant_t *) malloc (sizeof (p4est_quadrant_t) * m + 1);
    memset ((void *) q, 0x5a, sizeof (p4est_quadrant_t) * m + 1);
    for (i64 i = 0; i < m; ++i) { const Ptx & p = pts[cnt[r] + i]; q[i].x = (p4est_qcoord_t) p.x.x[0]; q[i].y = (p4est_qcoord_t) p.x.x[1]; D3 (q[i].z = (p4est_qcoord_t) p.x.x[2];) q[i].level = ML; q[i].p.which_tree = p.tree; }
    p4est_t *p = p4est_new_points (MPI_COMM_WORLD, c, maxlevel, q, (p4est_locidx_t) m, maxpoints, model.size, useinit ? init_pt : nullptr, &ctx);
    for (i64 i = 0; i < m; ++i) { Ptx x; x.tree = q[i].p.which_tree; x.x.x[0] = q[i].x; x.x.x[1] = q[i].y; D3 (x.x.x[2] = q[i].z;) got[r].push_back (x); }
    CHECK (((unsigned char *) q)[sizeof (p4est_quadrant_t) * m] == 0x5a, "process %d: p4est_new_points writes behind the points", r);
    CHECK (p->user_pointer == &ctx && p->data_size == model.size && p->connectivity == c && !ctx.bad, "process %d: p4est_new_points sets wrong members", r);
    CHECK (ctx.calls == (useinit ? p->local_num_quadrants : 0), "process %d: %d init calls for %d leaves", r, ctx.calls, p->local_num_quadrants);
    CHECK (p4est_is_valid (p), "process %d: p4est_new_points makes an invalid forest", r);
    compare (p, conn, f, cuts, useinit && model.size > 0, "p4est_new_points");
    p4est_destroy (p); p4est_connectivity_destroy (c); free (q);
  }, &rep);
  std::vector<Ptx> all; for (auto & g : got) all.insert (all.end (), g.begin (), g.end ());
  for (size_t i = 0; i < all.size (); ++i) CHECK (all[i].tree == sorted[i].tree && all[i].x == sorted[i].x, "the points are not returned in order");
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after p4est_new_points");
}
}
