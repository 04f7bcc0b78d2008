#ifndef GHOST_COMMON_H
#define GHOST_COMMON_H
#include "harness.h"
#if VDIM == 3
#include <p8est_ghost.h>
#else
#include <p4est_ghost.h>
#endif
namespace DNS {
/* model of ghost layers of all processes */
struct GhostModel {
  const Built *b; int codim = 1; Adj adj;
  std::vector<std::set<i64>> ghosts;       /* per process: global leaf indices */
  std::vector<std::set<i64>> last;         /* those added by the last layer */
  int owner (i64 i) const { return owner_of (b->cuts, i); }
  void init (const Built & bb, int cd) {
    b = &bb; codim = cd; adj = adjacency (bb.forest, cd);
    ghosts.assign (bb.cfg.P, {});
    for (i64 i = 0; i < (i64) adj.size (); ++i) { int p = owner (i); for (auto & e : adj[i]) if (owner (e.first) != p) ghosts[p].insert (e.first); }
    last = ghosts;
  }
  void expand () {
    std::vector<std::set<i64>> n (b->cfg.P);
    for (int p = 0; p < b->cfg.P; ++p) for (i64 g : ghosts[p]) for (auto & e : adj[g]) if (owner (e.first) != p && !ghosts[p].count (e.first)) n[p].insert (e.first);
    last = n;
    for (int p = 0; p < b->cfg.P; ++p) ghosts[p].insert (n[p].begin (), n[p].end ());
  }
};
inline void check_layer_quad (const GhostModel & m, const p4est_quadrant_t * q, i64 g, const char *what, const char *ctx) {
  const GL & l = m.b->leaves[g];
  CHECK (leaf_of (q) == l.l && q->p.piggy3.which_tree == l.tree, "%s: process %d: %s is t%d %s, expected %s", ctx, sim::rank (), what, (int) q->p.piggy3.which_tree, str (leaf_of (q)).c_str (), str (l.tree, l.l).c_str ());
  i64 num = g - m.b->cuts[m.owner (g)];
  CHECK (q->p.piggy3.local_num == num, "%s: process %d: %s %s has local number %d, expected %lld", ctx, sim::rank (), what, str (l.tree, l.l).c_str (), q->p.piggy3.local_num, (long long) num);
}
/* fronts: 0 do not check, 1 expected to be set */
inline void check_ghost (p4est_ghost_t * g, const GhostModel & m, bool fronts, const char *ctx) {
  const Built & b = *m.b; int me = sim::rank (), P = b.cfg.P;
  const auto & want = m.ghosts[me];
  CHECK (g->mpisize == P && g->num_trees == b.conn.nt && g->btype == btype_of (m.codim), "%s: wrong header of the ghost layer", ctx);
  if (g->ghosts.elem_count != want.size ()) {
    std::string d; std::set<std::pair<int, Leaf>> have; int n = 0;
    for (size_t z = 0; z < g->ghosts.elem_count; ++z) { p4est_quadrant_t *q = p4est_quadrant_array_index (&g->ghosts, z); have.insert ({ (int) q->p.piggy3.which_tree, leaf_of (q) }); }
    for (i64 w : want) if (!have.count ({ b.leaves[w].tree, b.leaves[w].l }) && n++ < 4) d += " missing " + str (b.leaves[w].tree, b.leaves[w].l) + " of process " + std::to_string (m.owner (w)) + ";";
    for (i64 w : want) have.erase ({ b.leaves[w].tree, b.leaves[w].l });
    for (auto & h : have) if (n++ < 8) d += " unexpected " + str (h.first, h.second) + ";";
    eng::fail ("%s: process %d has %zu ghosts, expected %zu:%s", ctx, me, g->ghosts.elem_count, want.size (), d.c_str ());
  }
  size_t z = 0;
  std::vector<i64> toff (b.conn.nt + 1, 0), poff (P + 1, 0);
  for (i64 w : want) {
    check_layer_quad (m, p4est_quadrant_array_index (&g->ghosts, z++), w, "ghost", ctx);
    toff[b.leaves[w].tree + 1]++; poff[m.owner (w) + 1]++;
  }
  for (int t = 0; t < b.conn.nt; ++t) toff[t + 1] += toff[t];
  for (int p = 0; p < P; ++p) poff[p + 1] += poff[p];
  for (int t = 0; t <= b.conn.nt; ++t) CHECK (g->tree_offsets[t] == toff[t], "%s: process %d: ghost offset of tree %d is %d, expected %lld", ctx, me, t, g->tree_offsets[t], (long long) toff[t]);
  for (int p = 0; p <= P; ++p) CHECK (g->proc_offsets[p] == poff[p], "%s: process %d: ghost offset of process %d is %d, expected %lld", ctx, me, p, g->proc_offsets[p], (long long) poff[p]);
  /* mirrors */
  std::map<i64, int> mir; std::vector<std::vector<i64>> by (P), front (P);
  for (int p = 0; p < P; ++p) if (p != me) {
    for (auto it = m.ghosts[p].lower_bound (b.cuts[me]); it != m.ghosts[p].end () && *it < b.cuts[me + 1]; ++it) { by[p].push_back (*it); mir[*it] = 0; }
    for (auto it = m.last[p].lower_bound (b.cuts[me]); it != m.last[p].end () && *it < b.cuts[me + 1]; ++it) front[p].push_back (*it);
  }
  CHECK (g->mirrors.elem_count == mir.size (), "%s: process %d has %zu mirrors, expected %zu", ctx, me, g->mirrors.elem_count, mir.size ());
  std::vector<i64> mtoff (b.conn.nt + 1, 0);
  z = 0;
  for (auto & e : mir) { e.second = (int) z; check_layer_quad (m, p4est_quadrant_array_index (&g->mirrors, z++), e.first, "mirror", ctx); mtoff[b.leaves[e.first].tree + 1]++; }
  for (int t = 0; t < b.conn.nt; ++t) mtoff[t + 1] += mtoff[t];
  for (int t = 0; t <= b.conn.nt; ++t) CHECK (g->mirror_tree_offsets[t] == mtoff[t], "%s: process %d: mirror offset of tree %d is %d, expected %lld", ctx, me, t, g->mirror_tree_offsets[t], (long long) mtoff[t]);
  i64 off = 0;
  for (int p = 0; p < P; ++p) {
    CHECK (g->mirror_proc_offsets[p] == off, "%s: process %d: mirror offset of process %d is %d, expected %lld", ctx, me, p, g->mirror_proc_offsets[p], (long long) off);
    CHECK (g->mirror_proc_offsets[p + 1] - g->mirror_proc_offsets[p] == (int) by[p].size (), "%s: process %d has %d mirrors for process %d, expected %zu", ctx, me,
           g->mirror_proc_offsets[p + 1] - g->mirror_proc_offsets[p], p, by[p].size ());
    for (size_t i = 0; i < by[p].size (); ++i)
      CHECK (g->mirror_proc_mirrors[off + i] == mir[by[p][i]], "%s: process %d: mirror %zu for process %d is number %d, expected %d", ctx, me, i, p, g->mirror_proc_mirrors[off + i], mir[by[p][i]]);
    off += (i64) by[p].size ();
  }
  if (fronts && g->mirror_proc_fronts) {
    off = 0;
    for (int p = 0; p < P; ++p) {
      CHECK (g->mirror_proc_front_offsets[p + 1] - g->mirror_proc_front_offsets[p] == (int) front[p].size (), "%s: process %d has %d front mirrors for process %d, expected %zu", ctx, me,
             g->mirror_proc_front_offsets[p + 1] - g->mirror_proc_front_offsets[p], p, front[p].size ());
      for (size_t i = 0; i < front[p].size (); ++i)
        CHECK (g->mirror_proc_fronts[off + i] == mir[front[p][i]], "%s: process %d: front mirror %zu for process %d is number %d, expected %d", ctx, me, i, p, g->mirror_proc_fronts[off + i], mir[front[p][i]]);
      off += (i64) front[p].size ();
    }
  }
  eng::checks (want.size () + mir.size () + 1);
}
}
#endif
