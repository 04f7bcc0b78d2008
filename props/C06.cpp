/* Histories of operations leave a valid forest, and the validity test tells invalid ones */
#include "hist_common.h"
namespace DNS {
using namespace eng;
static p4est_qcoord_t *axis (p4est_quadrant_t * q, int a) {
#if VDIM == 3
  if (a == 2) return &q->z;
#endif
  return a == 0 ? &q->x : &q->y;
}
/* one field of a valid forest changed on one process */
static void corrupt () {
  Built b; BuildOpts o; o.maxP = 5; o.maxleaves = 120; o.balance_any = true;
  draw_built (b, o);
  int P = b.cfg.P, r = (int) draw (P);
  if (P > 1 && chance (30)) {    /* the next process begins with a tree */
    r = (int) draw (P - 1);
    if (b.cuts[r] < b.cuts[r + 1]) {
      int t = b.leaves[b.cuts[r + 1] - 1].tree + 1;
      i64 c = t < b.conn.nt ? tree_offset (b.forest, t) : (i64) b.leaves.size ();
      for (int p = r + 1; p < P; ++p) b.cuts[p] = p == r + 1 ? c : std::max (c, b.cuts[p]);
    }
  }
  i64 first = b.cuts[r], n = b.cuts[r + 1] - first;
  if (n == 0) discard ();
  i64 i = (i64) draw (n);
  const GL g = b.leaves[first + i];
  int t = g.tree; i64 lo = std::max (first, tree_offset (b.forest, t)), cnt = 0;
  for (i64 k = first; k < first + n; ++k) cnt += b.leaves[k].tree == t;
  i64 at = first + i - lo;
  int kind = chance (20) ? 9 : (int) draw (16), var = (int) draw (4), q = P > 1 ? chance (40) ? std::min (r + 1, P - 1) : range (1, P - 1) : 0, lev = range (0, QML), lev2 = range (0, QML), co = range (0, DIM - 1);
  if (kind == 1 && cnt < 2) discard ();
  if (kind == 2 && cnt < 2) discard ();
  if (kind == 4 && g.l.level == QML) discard ();
  if (kind >= 8 && kind <= 10 && (q == 0 || (q != r && q != r + 1))) discard ();
  if (kind == 13 && b.leaves[first].tree == b.leaves[first + n - 1].tree) discard ();
  std::map<int, int> per; for (i64 k = first; k < first + n; ++k) if (b.leaves[k].tree == t) per[b.leaves[k].l.level]++;
  if (kind == 5 && lev == lev2) discard ();
  static const char *name[] = { "leaf removed", "leaf twice", "leaves swapped", "leaf moved", "leaf of other size", "counts per level", "maximum level", "leaf offset of a tree", "first leaf of a process",
    "first position of a process", "first tree of a process", "local leaf count", "global leaf count", "tree range", "first descendant", "last descendant" };
  label ("invalid: %s", name[kind]); nontrivial ();
  describe ("%s, process %d tree %d leaf %lld; ", name[kind], r, t, (long long) at);
  Attempt a = attempt ([&] {
    sim::run (b.cfg, [&] (int me) {
      p4est_t *p = build (b);
      CHECK (p4est_is_valid (p), "a valid forest is said to be invalid");
      if (me == r) {
        p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
        sc_array_t *a = &tr->quadrants; p4est_quadrant_t *x = p4est_quadrant_array_index (a, at);
        switch (kind) {
        case 0:                 /* with all counters in step */
          --tr->quadrants_per_level[(int) x->level]; memmove (x, x + 1, (cnt - 1 - at) * sizeof *x); sc_array_resize (a, cnt - 1);
          for (int z = t + 1; z < b.conn.nt; ++z) --p4est_tree_array_index (p->trees, z)->quadrants_offset;
          --p->local_num_quadrants; { int m = 0; for (int z = 0; z <= QML; ++z) if (tr->quadrants_per_level[z]) m = z; tr->maxlevel = (int8_t) m; }
          if (cnt > 1) { p4est_quadrant_first_descendant (p4est_quadrant_array_index (a, 0), &tr->first_desc, QML); p4est_quadrant_last_descendant (p4est_quadrant_array_index (a, cnt - 2), &tr->last_desc, QML); }
          break;
        case 1: { i64 f = at ? at - 1 : 1; p4est_quadrant_t y = *p4est_quadrant_array_index (a, f); --tr->quadrants_per_level[(int) x->level]; ++tr->quadrants_per_level[(int) y.level]; *x = y; int m = 0; for (int z = 0; z <= QML; ++z) if (tr->quadrants_per_level[z]) m = z; tr->maxlevel = (int8_t) m; break; }
        case 2: { i64 f = at ? at - 1 : 1; std::swap (*x, *p4est_quadrant_array_index (a, f)); break; }
        case 3: { p4est_qcoord_t *c = axis (x, co); *c ^= P4EST_QUADRANT_LEN (x->level); if (x->level == 0) *c = 2; break; }
        case 4: --tr->quadrants_per_level[(int) x->level]; ++x->level; ++tr->quadrants_per_level[(int) x->level]; if (x->level > tr->maxlevel) tr->maxlevel = x->level; break;
        case 5: --tr->quadrants_per_level[lev]; ++tr->quadrants_per_level[lev2]; if (var & 1) { int m = 0; for (int z = 0; z <= QML; ++z) if (tr->quadrants_per_level[z]) m = z; tr->maxlevel = (int8_t) m; } break;
        case 6: tr->maxlevel += var & 1 ? 1 : -1; break;
        case 7: p4est_tree_array_index (p->trees, (int) (lev * (i64) b.conn.nt / (QML + 1)))->quadrants_offset += var & 1 ? 1 : -1; break;
        case 8: p->global_first_quadrant[q] += var & 1 ? 1 : -1; break;
        case 9: { p4est_quadrant_t *y = &p->global_first_position[var & 2 ? q : P]; if (var & 1) *axis (y, co) ^= 2; else y->level = (int8_t) (QML - 1); break; }
        case 10: p->global_first_position[q].p.which_tree += var & 1 ? 1 : -1; break;
        case 11: p->local_num_quadrants += var & 1 ? 1 : -1; break;
        case 12: p->global_num_quadrants += var & 1 ? 1 : -1; break;
        case 13: if (var & 1) ++p->first_local_tree; else --p->last_local_tree; break;
        case 14: *axis (&tr->first_desc, co) ^= 2; break;
        case 15: *axis (&tr->last_desc, co) ^= 2; break;
        }
      }
      sim::host_barrier ();
      CHECK (!p4est_is_valid (p), "process %d: an invalid forest (%s) is said to be valid", me, name[kind]);
    });
  });
  CHECK (a == Attempt::RETURNED || a == Attempt::ABORTED, "the validity test on an invalid forest (%s) %s", name[kind], a == Attempt::HANGS ? "does not end" : "is a memory error");
}
void prop () {
  if (chance (8)) { corrupt (); return; }
  History h; HistOpts o;
  if (thorough ()) { o.maxops = 12; o.maxleaves = 2500; }
  draw_history (h, o);
  if (effective (h, -1) && h.ops.size () >= 2) nontrivial ();
  run_history (h);
}
}
