/* The adaptation wrapper: histories of mark, adapt, partition, complete */
#include "harness.h"
#include <mpi.h>
#if VDIM == 3
#include <p8est_wrap.h>
#else
#include <p4est_wrap.h>
#endif
namespace DNS {
using namespace eng;

/* ------------------------------------------------- comparison of the parts */
static std::string diff_array (const sc_array_t * a, const sc_array_t * b) {
  if ((a == nullptr) != (b == nullptr)) return a ? "should be NULL" : "is NULL";
  if (a == nullptr) return "";
  if (a->elem_size != b->elem_size || a->elem_count != b->elem_count) return "has " + std::to_string (a->elem_count) + " entries, expected " + std::to_string (b->elem_count);
  if (a->elem_count && memcmp (a->array, b->array, a->elem_size * a->elem_count)) return "differs";
  return "";
}
template < class T > static std::string diff_plain (const T * a, const T * b, size_t n) {
  if ((a == nullptr) != (b == nullptr)) return a ? "should be NULL" : "is NULL";
  if (a && n && memcmp (a, b, n * sizeof (T))) return "differs";
  return "";
}
static std::string diff_quads (sc_array_t * a, sc_array_t * b) {
  if (a->elem_count != b->elem_count) return "has " + std::to_string (a->elem_count) + " entries, expected " + std::to_string (b->elem_count);
  for (size_t z = 0; z < a->elem_count; ++z) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (a, z), *r = p4est_quadrant_array_index (b, z);
    if (!(leaf_of (q) == leaf_of (r)) || q->p.piggy3.which_tree != r->p.piggy3.which_tree || q->p.piggy3.local_num != r->p.piggy3.local_num) return "differs at " + std::to_string (z);
  }
  return "";
}
static std::string diff_ghost (p4est_ghost_t * g, p4est_ghost_t * h) {
  std::string s;
#define TRY(name, e) do { s = (e); if (!s.empty ()) return std::string (name) + " " + s; } while (0)
  if (g->mpisize != h->mpisize || g->num_trees != h->num_trees || g->btype != h->btype) return "header differs";
  size_t P = g->mpisize, T = g->num_trees;
  TRY ("ghosts", diff_quads (&g->ghosts, &h->ghosts)); TRY ("mirrors", diff_quads (&g->mirrors, &h->mirrors));
  TRY ("tree_offsets", diff_plain (g->tree_offsets, h->tree_offsets, T + 1)); TRY ("proc_offsets", diff_plain (g->proc_offsets, h->proc_offsets, P + 1));
  TRY ("mirror_tree_offsets", diff_plain (g->mirror_tree_offsets, h->mirror_tree_offsets, T + 1)); TRY ("mirror_proc_offsets", diff_plain (g->mirror_proc_offsets, h->mirror_proc_offsets, P + 1));
  TRY ("mirror_proc_mirrors", diff_plain (g->mirror_proc_mirrors, h->mirror_proc_mirrors, h->mirror_proc_offsets[P]));
  return "";
}
static std::string diff_mesh (p4est_mesh_t * m, p4est_mesh_t * n) {
  std::string s; size_t L = n->local_num_quadrants, G = n->ghost_num_quadrants;
  if (m->local_num_quadrants != n->local_num_quadrants || m->ghost_num_quadrants != n->ghost_num_quadrants) return "counts differ";
  if (memcmp (&m->params, &n->params, sizeof m->params)) return "parameters differ";
  TRY ("quad_to_tree", diff_plain (m->quad_to_tree, n->quad_to_tree, L)); TRY ("ghost_to_proc", diff_plain (m->ghost_to_proc, n->ghost_to_proc, G));
  TRY ("quad_to_quad", diff_plain (m->quad_to_quad, n->quad_to_quad, L * NF)); TRY ("quad_to_face", diff_plain (m->quad_to_face, n->quad_to_face, L * NF));
  TRY ("quad_to_half", diff_array (m->quad_to_half, n->quad_to_half));
  if ((m->quad_level == nullptr) != (n->quad_level == nullptr)) return "quad_level is wrong";
  if (m->quad_level) for (int l = 0; l <= QML; ++l) TRY ("quad_level", diff_array (m->quad_level + l, n->quad_level + l));
#if VDIM == 3
  if (m->local_num_edges != n->local_num_edges) return "edges differ";
  TRY ("quad_to_edge", diff_plain (m->quad_to_edge, n->quad_to_edge, L * 12)); TRY ("edge_offset", diff_array (m->edge_offset, n->edge_offset));
  TRY ("edge_quad", diff_array (m->edge_quad, n->edge_quad)); TRY ("edge_edge", diff_array (m->edge_edge, n->edge_edge));
#endif
  if (m->local_num_corners != n->local_num_corners) return "corners differ";
  TRY ("quad_to_corner", diff_plain (m->quad_to_corner, n->quad_to_corner, L * NCH)); TRY ("corner_offset", diff_array (m->corner_offset, n->corner_offset));
  TRY ("corner_quad", diff_array (m->corner_quad, n->corner_quad)); TRY ("corner_corner", diff_array (m->corner_corner, n->corner_corner));
#undef TRY
  return "";
}

/* ------------------------------------------------------------- the histories */
enum { REFINE = 1, COARSEN = 2 };
struct Step {
  u64 seed; int kind; int rdens, cdens, noise; int lmax; bool backward;   /* marks */
  int setdelay = -1, setaffect = 0, setpart = -1; bool hollow_before = false, hollow_marked = false;
  int weight; int nulls; bool iter0, iter1, iter2; bool copy = false; size_t copy_size = 0; bool copy_cycle = false; bool copy2 = false; Step *other = nullptr;
};
typedef std::tuple<int, Key, int> Q;
struct Ctx { int me = 0; bool active = false; std::set<Q> have; std::string bad; int calls = 0; int nout = 0; void *wrap = nullptr; };
/* the state that all processes agree upon, changed by process 0 between barriers */
struct World {
  Conn *conn; Forest f; Cuts cuts; std::vector<GL> leaves; std::vector<int> cnt; int P; int codim;
  int delay, affect, pfc, store; bool bycb; i64 cap;
  std::vector<int> marks; Built *ref = nullptr; bool changed = false, adapted = false, same = false; std::vector<std::vector<GL>> parts; Cuts refcuts; std::vector<int> refined, coarsened; std::vector<std::vector<int>> created; /* leaf states */
  std::vector<GL> old; Cuts oldcuts;
};
static void callback (p4est_t * p, p4est_topidx_t t, int no, p4est_quadrant_t * out[], int ni, p4est_quadrant_t * in[]) {
  p4est_wrap_t *pp = (p4est_wrap_t *) p->user_pointer; Ctx *c = (Ctx *) pp->params.user_pointer; c->calls++;
  if (c->wrap != pp || pp->p4est != p) { c->bad = "called with another wrapper"; return; }
  if (!((no == 1 && ni == NCH) || (no == NCH && ni == 1))) { c->bad = "wrong numbers of leaves"; return; }
  Leaf par = leaf_of (no == 1 ? out[0] : in[0]); p4est_quadrant_t **ch = no == 1 ? in : out;
  for (int k = 0; k < NCH; ++k) if (!(leaf_of (ch[k]) == par.child (k))) { c->bad = "no family"; return; }
  for (int k = 0; k < no; ++k) { Leaf l = leaf_of (out[k]); if (!c->have.erase (Q (t, l.key, l.level))) { c->bad = "replaces " + DNS::str (t, l) + " which is no leaf"; return; } }
  for (int k = 0; k < ni; ++k) { Leaf l = leaf_of (in[k]); if (!c->have.insert (Q (t, l.key, l.level)).second) { c->bad = "creates " + DNS::str (t, l) + " twice"; return; } }
  c->nout += no;
}
static void draw_step (Step & s, int depth) {
  s.seed = draw64 (); s.kind = (int) draw (6);
  static const int dens[] = { 100, 50, 10, 2, 0 };
  s.rdens = dens[draw (5)]; s.cdens = dens[draw (5)]; s.noise = chance (30) ? (int) draw (60) : 0;
  s.lmax = chance (80) ? range (1, 5) : QML; s.backward = draw (2);
  if (chance (20)) { s.setdelay = (int) draw (3); s.setaffect = (int) draw (2); }
  if (chance (10)) s.setpart = (int) draw (2);
  s.hollow_before = chance (15); s.hollow_marked = chance (10);
  s.weight = (int) draw (2); s.nulls = (int) draw (8);
  s.iter0 = draw (2); s.iter1 = draw (2); s.iter2 = draw (2);
  if (depth == 0 && chance (15)) { s.copy = true; s.copy_size = draw (2) ? 0 : range (1, 40); s.copy_cycle = draw (2); s.copy2 = chance (30); s.other = new Step (); draw_step (*s.other, 1); }
}
/* the marking calls for one leaf in their order; a pure function of the state */
static void calls_for (const World & w, const Step & s, i64 g, std::vector<int> & out) {
  out.clear (); const GL & x = w.leaves[g]; int L = x.l.level;
  u64 h = mix (s.seed, mix ((u64) x.tree, kh (x.l.key), (u64) L)), fam = L ? mix (s.seed, mix ((u64) x.tree, kh (x.l.parent ().key), (u64) L), 77) : 0;
  bool big = w.f.count () > w.cap; int want = 0;
  switch (s.kind) {
  case 0: if (L < s.lmax && (int) (h % 100) < s.rdens) want = REFINE; else if (L && (int) (fam % 100) < s.cdens) want = COARSEN; break;
  case 1: if (L && (int) (fam % 100) < s.cdens) want = COARSEN; else if (L < s.lmax && (int) (h % 100) < s.rdens) want = REFINE; break;
  case 2: want = COARSEN; break;
  case 3: if (g == (i64) (s.seed % w.leaves.size ()) && L < s.lmax) want = REFINE; break;
  case 4: /* exchange refinement and coarsening */ { i64 top = w.f.maxlevel (); if (L == top && L) want = COARSEN; else if (L + 1 == top && (int) (h % 100) < 60) want = REFINE; break; }
  default: want = 0; /* nothing but noise */
  }
  if (big && want == REFINE) want = COARSEN;
  int n = 0;
  if ((int) (mix (h, 1) % 100) < s.noise) n = 1 + (int) (mix (h, 2) % 2);
  for (int k = 0; k < n; ++k) out.push_back (mix (h, 3, k) % 2 && L < QML ? REFINE : COARSEN);
  if (want) out.push_back (want);
  else if (n && big) out.push_back (COARSEN);
}
static int mark_of (const World & w, const Step & s, i64 g) { std::vector<int> c; calls_for (w, s, g, c); return c.empty () ? 0 : c.back (); }

/* expected forest after refinement and coarsening, before balance; process 0 */
static void plan (World & w, const Step & s) {
  w.old = w.leaves; w.oldcuts = w.cuts; w.marks.resize (w.leaves.size ()); for (i64 g = 0; g < (i64) w.leaves.size (); ++g) w.marks[g] = mark_of (w, s, g);
  Forest m; m.conn = w.conn; m.t.resize (w.conn->nt); Cuts cuts { 0 }; std::map<Q, int> cnt; bool any = false; i64 total = 0;
  for (int r = 0; r < w.P; ++r) {
    for (i64 g = w.cuts[r]; g < w.cuts[r + 1]; ++g) {
      const GL & x = w.leaves[g]; const Leaf & l = x.l; int c = w.cnt[g];
      if (c >= 0) ++c;
      if ((w.marks[g] & REFINE) && l.level < QML) {
        for (int k = 0; k < NCH; ++k) { Leaf ch = l.child (k); m.t[x.tree].push_back (ch); cnt[Q (x.tree, ch.key, ch.level)] = 0; }
        total += NCH; any = true; continue;
      }
      bool co = l.level > 0 && l.childid () == 0 && g + NCH <= w.cuts[r + 1];
      for (int k = 0; co && k < NCH; ++k) {
        const GL & y = w.leaves[g + k]; int d = w.cnt[g + k]; if (d >= 0) ++d;
        co = y.tree == x.tree && y.l == l.parent ().child (k) && (w.marks[g + k] & COARSEN) && !(w.delay && d >= 0 && d <= w.delay);
      }
      if (co) { Leaf p = l.parent (); m.t[x.tree].push_back (p); cnt[Q (x.tree, p.key, p.level)] = w.affect ? 0 : -1; g += NCH - 1; total++; any = true; continue; }
      m.t[x.tree].push_back (l); cnt[Q (x.tree, l.key, l.level)] = c; total++;
    }
    cuts.push_back (total);
  }
  w.adapted = any; w.bycb = true;
  delete w.ref; w.ref = new Built; w.ref->conn = *w.conn; w.ref->forest = m; w.ref->forest.conn = &w.ref->conn; w.ref->cuts = cuts; w.ref->leaves = flat (w.ref->forest); w.ref->cfg.P = w.P;
  w.parts.assign (w.P, {});
  w.created.clear (); w.cnt.clear (); for (auto & y : w.ref->leaves) w.cnt.push_back (cnt[Q (y.tree, y.l.key, y.l.level)]);
}
/* the expected forest after balance; process 0 */
static void settle (World & w) {
  std::map<Q, int> cnt; for (size_t i = 0; i < w.cnt.size (); ++i) { auto & y = w.ref->leaves[i]; cnt[Q (y.tree, y.l.key, y.l.level)] = w.cnt[i]; }
  w.cuts.assign (1, 0); Forest f; f.conn = w.conn; f.t.resize (w.conn->nt); i64 n = 0;
  for (auto & v : w.parts) { for (auto & x : v) { f.t[x.tree].push_back (x.l); ++n; } w.cuts.push_back (n); }
  w.f = f; w.leaves = flat (w.f); w.cnt.clear ();
  for (auto & y : w.leaves) { auto it = cnt.find (Q (y.tree, y.l.key, y.l.level)); w.cnt.push_back (it == cnt.end () ? -1 : it->second); }
  w.same = w.leaves.size () == w.old.size (); for (size_t i = 0; w.same && i < w.old.size (); ++i) w.same = w.old[i].tree == w.leaves[i].tree && w.old[i].l == w.leaves[i].l;
}
static void deposit (p4est_t * p, std::vector<GL> & v) {
  v.clear ();
  for (int t = p->first_local_tree; t <= p->last_local_tree; ++t) { p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) v.push_back (GL { t, leaf_of (p4est_quadrant_array_index (&tr->quadrants, z)) }); }
}
static void check_iter (p4est_wrap_t * pp, const World & w, int r, bool track, const char *ctx) {
  p4est_t *p = pp->p4est; i64 g = w.cuts[r]; std::set<int> mir; int prev = -1, k = 0;
  if (track) { p4est_ghost_t *gh = p4est_wrap_get_ghost (pp); for (size_t z = 0; z < gh->mirrors.elem_count; ++z) mir.insert (p4est_quadrant_array_index (&gh->mirrors, z)->p.piggy3.local_num); }
  p4est_wrap_leaf_t *l;
  for (l = p4est_wrap_leaf_first (pp, track); l != nullptr; l = p4est_wrap_leaf_next (l), ++g) {
    CHECK (g < w.cuts[r + 1], "%s: process %d: the iterator goes beyond the last leaf", ctx, r);
    const GL & x = w.leaves[g]; if (x.tree != prev) { k = 0; prev = x.tree; }
    CHECK (l->pp == pp && l->which_tree == x.tree && l->which_quad == k && l->local_quad == g - w.cuts[r], "%s: process %d: leaf iterator at tree %d, leaf %d, local %d, expected tree %d, leaf %d, local %lld", ctx, r, l->which_tree, l->which_quad, l->local_quad, x.tree, k, (long long) (g - w.cuts[r]));
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, x.tree);
    CHECK (l->tree == tr && l->tquadrants == &tr->quadrants && l->quad == p4est_quadrant_array_index (&tr->quadrants, k), "%s: process %d: leaf iterator has wrong pointers", ctx, r);
    CHECK (P4EST_LEAF_IS_FIRST_IN_TREE (l) == (k == 0), "%s: process %d: first in tree is wrong", ctx, r);
    CHECK (!l->is_mirror == !(track && mir.count ((int) (g - w.cuts[r]))), "%s: process %d: local leaf %lld: is_mirror is %d", ctx, r, (long long) (g - w.cuts[r]), l->is_mirror);
    ++k;
  }
  CHECK (g == w.cuts[r + 1], "%s: process %d: the iterator stops after %lld of %lld leaves", ctx, r, (long long) (g - w.cuts[r]), (long long) (w.cuts[r + 1] - w.cuts[r]));
}
static void check_parts (p4est_wrap_t * pp, const World & w, int r, const char *ctx) {
  p4est_ghost_t *g = p4est_ghost_new (pp->p4est, pp->params.mesh_params.btype); p4est_mesh_t *m = p4est_mesh_new_params (pp->p4est, g, &pp->params.mesh_params);
  std::string s = diff_ghost (p4est_wrap_get_ghost (pp), g); CHECK (s.empty (), "%s: process %d: ghost layer of the wrapper: %s", ctx, r, s.c_str ());
  s = diff_mesh (p4est_wrap_get_mesh (pp), m); CHECK (s.empty (), "%s: process %d: mesh of the wrapper: %s", ctx, r, s.c_str ());
  CHECK ((m->quad_to_tree != nullptr) == !!pp->params.mesh_params.compute_tree_index && (m->quad_level != nullptr) == !!pp->params.mesh_params.compute_level_lists && (m->quad_to_corner != nullptr) == (w.codim == DIM), "%s: mesh lists do not follow the parameters", ctx);
  p4est_mesh_destroy (m); p4est_ghost_destroy (g);
  for (i64 i = 0; i < w.cuts[r + 1] - w.cuts[r]; ++i) CHECK (pp->flags[i] == 0, "%s: process %d: flag of local leaf %lld is %d", ctx, r, (long long) i, pp->flags[i]);
}
static void check_state (p4est_wrap_t * pp, const World & w, const char *ctx) {
  compare (pp->p4est, *w.conn, w.f, w.cuts, false, ctx);
  CHECK (pp->p4est->user_pointer == pp && pp->conn == pp->p4est->connectivity && pp->p4est_dim == DIM && pp->p4est_half == HALF && pp->p4est_faces == NF && pp->p4est_children == NCH, "%s: members of the wrapper are wrong", ctx);
}
static void hollow_twice (p4est_wrap_t * pp) {
  CHECK (!pp->params.hollow, "wrapper is hollow"); p4est_wrap_set_hollow (pp, 0); CHECK (pp->flags && pp->ghost && pp->mesh, "parts are missing");
  p4est_wrap_set_hollow (pp, 1); CHECK (pp->params.hollow && !pp->flags && !pp->ghost && !pp->mesh, "a hollow wrapper has parts"); p4est_wrap_set_hollow (pp, 1);
}
static void fill_ctx (Ctx & c, p4est_wrap_t * pp, const World & w, int r) { c.wrap = pp; c.have.clear (); c.bad.clear (); c.calls = c.nout = 0; for (i64 g = w.cuts[r]; g < w.cuts[r + 1]; ++g) c.have.insert (Q (w.leaves[g].tree, w.leaves[g].l.key, w.leaves[g].l.level)); }
static void mark_all (p4est_wrap_t * pp, const World & w, const Step & s, int r, bool junk) {
  std::vector<int> c; std::vector<i64> k; int n = (int) (w.cuts[r + 1] - w.cuts[r]);
  for (int j = 0; j < n; ++j) {
    i64 g = s.backward ? w.cuts[r + 1] - 1 - j : w.cuts[r] + j; const GL & x = w.leaves[g];
    i64 first = g; (void) k; first = std::max (w.cuts[r], tree_offset (w.f, x.tree));
    calls_for (w, s, g, c);
    if (junk) { c.clear (); c.push_back (1 + (int) (mix (s.seed, (u64) g) % 2)); if (x.l.level >= QML) c[0] = COARSEN; }
    for (int a : c) { if (a == REFINE) p4est_wrap_mark_refine (pp, x.tree, (int) (g - first)); else p4est_wrap_mark_coarsen (pp, x.tree, (int) (g - first)); }
  }
}
/* one cycle; the wrapper is not hollow */
static void cycle (p4est_wrap_t * pp, World & w, const Step & s, Ctx & ctx, bool cb, int number) {
  int r = sim::rank (); char at[40]; snprintf (at, sizeof at, "cycle %d", number);
  if (s.setdelay >= 0) { sim::host_barrier (); if (r == 0) { w.delay = s.setdelay; w.affect = s.setaffect; w.cnt.assign (w.leaves.size (), 0); } p4est_wrap_set_coarsen_delay (pp, s.setdelay, s.setaffect); }
  if (s.setpart >= 0) { sim::host_barrier (); if (r == 0) w.pfc = s.setpart; p4est_wrap_set_partitioning (pp, s.setpart); }
  sim::host_barrier ();
  if (s.hollow_before) { if (s.hollow_marked) mark_all (pp, w, s, r, true); hollow_twice (pp); if (s.iter0) check_iter (pp, w, r, false, at); p4est_wrap_set_hollow (pp, 0); check_parts (pp, w, r, "after unsetting hollow"); }
  if (s.iter0) check_iter (pp, w, r, s.seed & 1, at);
  mark_all (pp, w, s, r, false);
  check_state (pp, w, "after marking");
  fill_ctx (ctx, pp, w, r);
  sim::host_barrier ();
  if (r == 0) plan (w, s);
  sim::host_barrier ();
  /* the reference */
  p4est_t *ref = build (*w.ref); if (w.adapted) p4est_balance (ref, pp->params.mesh_params.btype, nullptr);
  deposit (ref, w.parts[r]); destroy (ref);
  sim::host_barrier ();
  if (r == 0) settle (w);
  sim::host_barrier ();
  int changed = p4est_wrap_adapt (pp);
  check_state (pp, w, (std::string (at) + ": after adapting").c_str ());
  CHECK (!changed == w.same, "%s: process %d: p4est_wrap_adapt returns %d and the forest is %s", at, r, changed, w.same ? "the same" : "changed");
  check_parts (pp, w, r, (std::string (at) + ": after adapting").c_str ());
  if (cb) {
    CHECK (ctx.bad.empty (), "%s: process %d: replace callback %s", at, r, ctx.bad.c_str ());
    std::set<Q> now; for (i64 g = w.cuts[r]; g < w.cuts[r + 1]; ++g) now.insert (Q (w.leaves[g].tree, w.leaves[g].l.key, w.leaves[g].l.level));
    CHECK (now == ctx.have, "%s: process %d: the replace calls lead to other leaves than those of the forest", at, r);
  }
  CHECK ((pp->newly_refined != nullptr) == w.store && (pp->newly_coarsened != nullptr) == w.store, "%s: presence of the lists of adapted leaves is wrong", at);
  if (w.store) {
    std::vector<int> nr, nc;
    for (i64 g = w.cuts[r]; g < w.cuts[r + 1]; ++g) {
      const GL & x = w.leaves[g]; i64 lo = w.oldcuts[r], hi = w.oldcuts[r + 1];
      /* the old leaf at the same position */
      i64 o = std::upper_bound (w.old.begin () + lo, w.old.begin () + hi, x, [] (const GL & a, const GL & b) { return a.tree != b.tree ? a.tree < b.tree : a.l.key < b.l.key; }) - w.old.begin () - 1;
      if (w.old[o].l.level > x.l.level) nc.push_back ((int) (g - w.cuts[r]));
      if (w.old[o].l.level < x.l.level && x.l.childid () == 0) nr.push_back ((int) (g - w.cuts[r]));
    }
    auto same = [&] (sc_array_t * a, const std::vector<int> & v, const char *what) {
      CHECK (a->elem_size == sizeof (p4est_locidx_t) && a->elem_count == v.size (), "%s: process %d: %zu leaves newly %s, expected %zu", at, r, a->elem_count, what, v.size ());
      for (size_t z = 0; z < v.size (); ++z) CHECK (*(p4est_locidx_t *) sc_array_index (a, z) == v[z], "%s: process %d: leaf %d newly %s, expected %d", at, r, *(p4est_locidx_t *) sc_array_index (a, z), what, v[z]);
    };
    same (pp->newly_refined, nr, "refined"); same (pp->newly_coarsened, nc, "coarsened");
  }
  if (s.iter1) check_iter (pp, w, r, s.seed & 2, at);
  if (w.same) { CHECK (pp->ghost_aux == nullptr && pp->mesh_aux == nullptr, "%s: unchanged, but an intermediate mesh exists", at); sim::host_barrier (); return; }
  /* partition */
  sim::host_barrier ();
  if (r == 0) { delete w.ref; w.ref = new Built; w.ref->conn = *w.conn; w.ref->forest = w.f; w.ref->forest.conn = &w.ref->conn; w.ref->cuts = w.cuts; w.ref->leaves = w.leaves; w.ref->cfg.P = w.P; w.oldcuts = w.cuts; w.refcuts.assign (w.P + 1, 0); }
  sim::host_barrier ();
  { int wt = s.weight; ref = build (*w.ref, &wt);
    p4est_partition_ext (ref, w.pfc, wt ? [] (p4est_t *, p4est_topidx_t, p4est_quadrant_t * q) { return 1 << (int) q->level; } : (p4est_weight_t) nullptr);
    if (r == 0) for (int i = 0; i <= w.P; ++i) w.refcuts[i] = ref->global_first_quadrant[i];
    destroy (ref); }
  sim::host_barrier ();
  if (r == 0) w.cuts = w.refcuts;
  sim::host_barrier ();
  i64 a0 = w.oldcuts[r], a1 = w.oldcuts[r + 1], b0 = w.cuts[r], b1 = w.cuts[r + 1], lo = std::max (a0, b0), hi = std::min (a1, b1);
  p4est_locidx_t uf = -7, ul = -7, uo = -7, wf = 0, wl = 0, wo = 0;
  bool moved = w.cuts != w.oldcuts;
  if (lo < hi) { wf = (int) (lo - b0); wl = (int) (hi - lo); wo = (int) (lo - a0); }
  int pc = p4est_wrap_partition (pp, s.weight, s.nulls & 1 ? nullptr : &uf, s.nulls & 2 ? nullptr : &ul, s.nulls & 4 ? nullptr : &uo);
  check_state (pp, w, (std::string (at) + ": after partitioning").c_str ());
  CHECK (!pc == !moved, "%s: process %d: p4est_wrap_partition returns %d and the partition is %s", at, r, pc, moved ? "changed" : "the same");
  if (!(s.nulls & 1)) CHECK (uf == wf, "%s: process %d: first unchanged leaf is %d, expected %d (old %lld to %lld, new %lld to %lld)", at, r, uf, wf, (long long) a0, (long long) a1, (long long) b0, (long long) b1);
  if (!(s.nulls & 2)) CHECK (ul == wl, "%s: process %d: %d unchanged leaves, expected %d (old %lld to %lld, new %lld to %lld)", at, r, ul, wl, (long long) a0, (long long) a1, (long long) b0, (long long) b1);
  if (!(s.nulls & 4)) CHECK (uo == wo, "%s: process %d: first unchanged leaf was %d, expected %d (old %lld to %lld, new %lld to %lld)", at, r, uo, wo, (long long) a0, (long long) a1, (long long) b0, (long long) b1);
  check_parts (pp, w, r, (std::string (at) + ": after partitioning").c_str ());
  if (pc) { p4est_wrap_complete (pp); }
  CHECK (pp->ghost_aux == nullptr && pp->mesh_aux == nullptr && pp->ghost && pp->mesh, "%s: the cycle is not complete", at);
  check_state (pp, w, (std::string (at) + ": after completing").c_str ());
  check_parts (pp, w, r, (std::string (at) + ": after completing").c_str ());
  if (s.iter2) check_iter (pp, w, r, s.seed & 4, at);
  sim::host_barrier ();
}

/* ------------------------------------------------------------- construction */
struct Named { int which = -1; int level = 0; int n[3], per[3]; };
static p4est_connectivity_t *named_conn (const Named & n) {
  switch (n.which) {
#if VDIM == 2
  case 0: case 8: return p4est_connectivity_new_unitsquare ();
  case 1: return p4est_connectivity_new_periodic (); case 2: return p4est_connectivity_new_rotwrap (); case 3: return p4est_connectivity_new_corner ();
  case 4: return p4est_connectivity_new_pillow (); case 5: return p4est_connectivity_new_moebius (); case 6: return p4est_connectivity_new_cubed ();
  case 7: return p4est_connectivity_new_disk (n.per[0], n.per[1]); default: return p4est_connectivity_new_brick (n.n[0], n.n[1], n.per[0], n.per[1]);
#else
  case 0: case 1: return p8est_connectivity_new_unitcube (); case 2: return p8est_connectivity_new_rotwrap ();
  default: return p8est_connectivity_new_brick (n.n[0], n.n[1], n.n[2], n.per[0], n.per[1], n.per[2]);
#endif
  }
}
static p4est_wrap_t *named_wrap (const Named & n) {
  MPI_Comm c = MPI_COMM_WORLD; int l = n.level;
  switch (n.which) {
#if VDIM == 2
  case 0: return p4est_wrap_new_unitsquare (c, l); case 8: return sim::is_sub () ? p4est_wrap_new_unitsquare (c, l) : p4est_wrap_new_world (l);
  case 1: return p4est_wrap_new_periodic (c, l); case 2: return p4est_wrap_new_rotwrap (c, l); case 3: return p4est_wrap_new_corner (c, l);
  case 4: return p4est_wrap_new_pillow (c, l); case 5: return p4est_wrap_new_moebius (c, l); case 6: return p4est_wrap_new_cubed (c, l);
  case 7: return p4est_wrap_new_disk (c, n.per[0], n.per[1], l); default: return p4est_wrap_new_brick (c, n.n[0], n.n[1], n.per[0], n.per[1], l);
#else
  case 0: return p8est_wrap_new_unitcube (c, l); case 1: return sim::is_sub () ? p8est_wrap_new_unitcube (c, l) : p8est_wrap_new_world (l); case 2: return p8est_wrap_new_rotwrap (c, l);
  default: return p8est_wrap_new_brick (c, n.n[0], n.n[1], n.n[2], n.per[0], n.per[1], n.per[2], l);
#endif
  }
}
void prop () {
  int ctor = weighted ({ 55, 8, 8, 9, 20 });     /* from a forest; conn; ext; params; named */
  p4est_wrap_params_t params; p4est_wrap_params_init (&params);
  CHECK (params.hollow == 1 && params.replace_fn == nullptr && params.coarsen_delay == 0 && params.coarsen_affect == 0 && params.partition_for_coarsening == 1 && params.store_adapted == 0 && params.user_pointer == nullptr, "default parameters of the wrapper are wrong");
  int codim = range (1, DIM); bool cb = chance (70), nullparams = false, simple = false; Named nm; int level = 0;
  if (ctor == 0) { nullparams = chance (5); simple = !nullparams && chance (20); if (nullparams) codim = 1; }
  if (ctor == 1 || ctor == 4) codim = DIM;
  Built b; BuildOpts o; o.maxP = 9; o.maxleaves = thorough () ? 300 : 120; o.balance_codim = codim; o.maxtrees = 30;
  if (ctor == 0) draw_built (b, o);
  else {
    level = ctor == 4 || draw (8) ? range (0, VDIM == 2 ? 3 : 2) : -1;
    if (ctor == 4) {
      nm.which = (int) draw (VDIM == 2 ? 10 : 4); nm.level = level = std::min (level, VDIM == 2 ? 2 : 1); for (int i = 0; i < 3; ++i) { nm.n[i] = range (1, VDIM == 2 ? 4 : 3); nm.per[i] = (int) draw (2); }
      b.cfg = draw_sim (9);
      p4est_connectivity_t *c = named_conn (nm); b.conn.from (c); p4est_connectivity_destroy (c); b.conn.name = "named " + std::to_string (nm.which);
    } else { b.conn = draw_conn (16); b.cfg = draw_sim (9); while (level > 0 && (b.conn.nt << (DIM * level)) > 300) --level; }
    b.data_size = 0; b.forest = uniform (&b.conn, std::max (level, 0), [] (int, const Leaf &) { return (u64) 0; }); b.leaves = flat (b.forest); b.cuts = uniform_cuts ((i64) b.leaves.size (), b.cfg.P);
  }
  if (ctor == 0 && !nullparams && !simple) { params.mesh_params.compute_tree_index = (int) draw (2); params.mesh_params.compute_level_lists = (int) draw (2); }
  bool all = (ctor == 0 && !nullparams && !simple) || ctor == 3;
  if (ctor == 3) { params.mesh_params.compute_tree_index = (int) draw (2); params.mesh_params.compute_level_lists = (int) draw (2); nullparams = chance (10); if (nullparams) { codim = 1; all = false; } }
  if (all) {
    D3 (params.mesh_params.edgehanging_corners = (int) draw (2);)
    params.coarsen_delay = chance (40) ? range (1, 2) : 0; params.coarsen_affect = (int) draw (2); params.partition_for_coarsening = (int) draw (2); params.store_adapted = chance (60);
  }
  bool hollow0 = ctor == 1 || ctor == 4 ? false : nullparams ? true : draw (2);
  params.hollow = hollow0; params.mesh_params.btype = btype_of (codim);
  if (ctor == 1 || ctor == 4 || nullparams) cb = false;
  params.replace_fn = cb ? callback : nullptr;
  World w; w.conn = &b.conn; w.f = b.forest; w.f.conn = &b.conn; w.cuts = b.cuts; w.leaves = b.leaves; w.cnt.assign (w.leaves.size (), 0); w.P = b.cfg.P; w.codim = codim; w.cap = thorough () ? 500 : 250;
  w.parts.resize (w.P); w.delay = params.coarsen_delay; w.affect = params.coarsen_affect; w.pfc = params.partition_for_coarsening; w.store = params.store_adapted;
  int n = range (1, thorough () ? 8 : 4); std::vector<std::unique_ptr<Step>> steps, extra; for (int i = 0; i < n; ++i) { steps.emplace_back (new Step ()); draw_step (*steps.back (), 0); if (steps.back ()->other) extra.emplace_back (steps.back ()->other); }
  static const char *cn[] = { "from a forest", "conn", "ext", "params", "named" };
  label ("constructor: %s", cn[ctor]); if (w.delay) label ("coarsening delay"); if (w.store) label ("adapted leaves stored");
  describe ("%d cycles, constructor %s, balance codim %d, %d processes, %zu leaves, conn %s; ", n, cn[ctor], codim, w.P, w.leaves.size (), b.conn.name.c_str ());
  std::unique_ptr<World> w2; bool effective = false, unchanged = false;
  MemMark mark = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int r) {
    Ctx ctx; p4est_wrap_t *pp; p4est_wrap_params_t mine = params; mine.user_pointer = &ctx; void *up = &ctx;
    if (ctor == 0) {
      p4est_t *p = build (b);
      /* face balance may refine across tree corners in addition to what is required, so start from its result */
      p4est_balance (p, btype_of (codim), nullptr);
      deposit (p, w.parts[r]);
      sim::host_barrier (); if (r == 0) { w.ref = new Built; w.cnt.clear (); settle (w); w.cnt.assign (w.leaves.size (), 0); } sim::host_barrier ();
      pp = simple ? p4est_wrap_new_p4est (p, hollow0, params.mesh_params.btype, params.replace_fn, up) : p4est_wrap_new_p4est_params (p, nullparams ? nullptr : &mine);
      CHECK (pp->p4est == p, "the wrapper has another forest");
    }
    else if (ctor == 4) pp = named_wrap (nm);
    else {
      p4est_connectivity_t *c = b.conn.make ();
      pp = ctor == 1 ? p4est_wrap_new_conn (MPI_COMM_WORLD, c, level) : ctor == 2 ? p4est_wrap_new_ext (MPI_COMM_WORLD, c, level, hollow0, params.mesh_params.btype, params.replace_fn, up) : p4est_wrap_new_params (MPI_COMM_WORLD, c, level, nullparams ? nullptr : &mine);
      CHECK (pp->conn == c, "the wrapper has another connectivity");
    }
    CHECK (b.conn.same_as (pp->conn), "the wrapper's connectivity is wrong");
    CHECK (pp->p4est->data_size == 0 && pp->p4est->user_data_pool == nullptr, "the wrapper's forest has data");
    CHECK (!pp->params.hollow == !hollow0, "hollow is %d", pp->params.hollow);
    CHECK (pp->params.mesh_params.btype == btype_of (codim) && pp->params.coarsen_delay == w.delay && pp->params.partition_for_coarsening == w.pfc && pp->params.store_adapted == w.store && pp->params.replace_fn == params.replace_fn && pp->params.user_pointer == (ctor == 1 || ctor == 4 || nullparams ? nullptr : up), "parameters are not stored");
    if (ctor == 1 || ctor == 2 || ctor == 4 || simple) CHECK (pp->params.mesh_params.compute_tree_index && pp->params.mesh_params.compute_level_lists, "mesh lists are not requested");
    CHECK (pp->newly_refined == nullptr && pp->newly_coarsened == nullptr, "lists of adapted leaves exist");
    check_state (pp, w, "new wrapper"); check_iter (pp, w, r, false, "new wrapper");
    if (hollow0) { CHECK (!pp->flags && !pp->ghost && !pp->mesh, "a hollow wrapper has parts"); p4est_wrap_set_hollow (pp, 0); }
    check_parts (pp, w, r, "new wrapper");
    for (int i = 0; i < n; ++i) {
      const Step & s = *steps[i];
      cycle (pp, w, s, ctx, cb, i);
      if (r == 0) { effective |= !w.same; if (w.same && w.adapted) unchanged = true; }
      if (!s.copy) continue;
      Ctx ctx2; size_t ds = w.delay ? 0 : s.copy_size; bool cyc = s.copy_cycle && ds == 0;
      p4est_wrap_t *qq = p4est_wrap_new_copy (pp, ds, cyc ? callback : nullptr, &ctx2);
      CHECK (qq->params.hollow && !qq->flags && !qq->ghost && !qq->mesh, "a copied wrapper is not hollow");
      CHECK (qq->p4est != pp->p4est && qq->p4est->data_size == ds && qq->params.user_pointer == &ctx2 && qq->params.replace_fn == (cyc ? callback : nullptr), "members of a copied wrapper are wrong");
      { p4est_wrap_params_t x = qq->params, y = pp->params; x.hollow = y.hollow; x.user_pointer = y.user_pointer; x.replace_fn = y.replace_fn;
        CHECK (x.mesh_params.btype == y.mesh_params.btype && x.mesh_params.compute_tree_index == y.mesh_params.compute_tree_index && x.mesh_params.compute_level_lists == y.mesh_params.compute_level_lists && x.coarsen_delay == y.coarsen_delay && x.coarsen_affect == y.coarsen_affect && x.partition_for_coarsening == y.partition_for_coarsening && x.store_adapted == y.store_adapted, "parameters of a copied wrapper are wrong"); }
      std::string d = diff_array (qq->newly_refined, pp->newly_refined); CHECK (d.empty (), "newly refined leaves of the copy: %s", d.c_str ());
      d = diff_array (qq->newly_coarsened, pp->newly_coarsened); CHECK (d.empty (), "newly coarsened leaves of the copy: %s", d.c_str ());
      check_state (qq, w, "copied wrapper"); check_iter (qq, w, r, false, "copied wrapper");
      p4est_wrap_t *q2 = s.copy2 ? p4est_wrap_new_copy (qq, 0, nullptr, nullptr) : nullptr;
      if (cyc) {
        sim::host_barrier (); if (r == 0) { w2.reset (new World (w)); w2->ref = nullptr; w2->cnt.assign (w2->leaves.size (), 0); } sim::host_barrier ();
        p4est_wrap_set_hollow (qq, 0);
        /* whether a copy keeps the ages of the leaves is not documented */
        p4est_wrap_set_coarsen_delay (qq, w2->delay, w2->affect);
        cycle (qq, *w2, *s.other, ctx2, true, 1000 + i);
        check_state (pp, w, "the original of a copied wrapper");
      }
      if (q2) { check_state (q2, w, "copy of a copy"); p4est_wrap_destroy (q2); }
      p4est_wrap_destroy (qq);
      check_state (pp, w, "the original after the copy is gone"); check_parts (pp, w, r, "the original after the copy is gone");
      sim::host_barrier (); if (r == 0 && w2) { delete w2->ref; w2.reset (); } sim::host_barrier ();
    }
    if (b.leaves.size () & 1) hollow_twice (pp);
    p4est_wrap_destroy (pp);
  }, &rep);
  delete w.ref;
  if (effective && w.P > 1) nontrivial ();
  if (unchanged) label ("balance cancels an adaptation");
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after destroying the wrapper");
}
}
