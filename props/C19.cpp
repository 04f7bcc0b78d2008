/* Top-down searches over local leaves and partitions; binary searches and range queries */
#include "harness.h"
#if VDIM == 3
#include <p8est_search.h>
#else
#include <p4est_search.h>
#endif
namespace DNS {
using namespace eng;

/* ------------------------------------------------------------ one search */
enum { QUAD = 0, POINT, POST, REORDER };
struct Ev { int kind, tree; Leaf q; i64 num; int pf, pl; u64 info;
  bool operator== (const Ev & o) const { return kind == o.kind && tree == o.tree && q == o.q && num == o.num && pf == o.pf && pl == o.pl && info == o.info; } };
enum Kind { LOCAL = 0, SEARCH, SEARCH_REORDER, PART, PART_GFX, PART_GFP, ALL, NKIND };
static const char *kname[] = { "search_local", "search", "search_reorder", "search_partition", "search_partition_gfx", "search_partition_gfp", "search_all" };
struct Point { u64 id; int tree; Key key; };
struct Spec {
  int kind = 0; bool post = false, quad = true, postfn = true, points = false, skip = false, reorder = false, perrank = false; u64 seed = 0;
  size_t esize = 8; int np = 0, qd = 95, rd = 95, noise = 0, how = 0; std::vector<Point> pt;
  u64 sd (int r) const { return perrank ? mix (seed, (u64) r) : seed; }
  bool dq (int r, int tree, const Leaf & l, int phase) const { return (int) (mix (sd (r), mix (tree, kh (l.key)), l.level * 2 + phase) % 100) < qd; }
  bool dr (int r, int tree, const Leaf & l) const { return (int) (mix (sd (r) + 1, mix (tree, kh (l.key)), l.level) % 100) < rd; }
  bool dp (int r, int tree, const Leaf & l, u64 id) const {
    const Point & p = pt[id];
    bool in = p.tree == tree && p.key >= l.key && p.key < l.end ();
    return in != ((int) (mix (sd (r) + 2, mix (tree, kh (l.key), id), l.level) % 100) < noise);
  }
  /* order and choice of some indices */
  void permute (int r, int tree, const Leaf & l, std::vector<int> & v) const {
    u64 h = mix (sd (r) + 3, mix (tree, kh (l.key)), l.level);
    if (how == 0) return;
    for (size_t i = v.size (); i > 1; --i) std::swap (v[i - 1], v[(h = mix (h)) % i]);
    if (how == 2) v.resize ((h = mix (h)) % 3 ? v.size () : (h >> 8) % (v.size () + 1));
  }
};
struct Part { const Conn *conn = nullptr; const Forest *f = nullptr; const Cuts *cuts = nullptr; std::vector<i64> off;
  void set (const Conn & c, const Forest & ff, const Cuts & k) { conn = &c; f = &ff; cuts = &k; off.assign (1, 0); for (auto & t : ff.t) off.push_back (off.back () + (i64) t.size ()); }
  i64 at (int tree, Key k) const { return off[tree] + f->find (tree, k); }
  int first (int tree, const Leaf & l) const { return owner_of (*cuts, at (tree, l.key)); }
  int last (int tree, const Leaf & l) const { return owner_of (*cuts, at (tree, l.end () - 1)); }
};
struct Rec { const Spec *s; int me; p4est_t *p; sc_array_t *points; std::vector<Ev> ev; std::string err; };
static Rec *&cur (int r) { static Rec *t[64]; return t[r]; }
static Rec & rec () { return *cur (sim::rank ()); }
static u64 idof (Rec & r, void *point) {
  size_t o = (size_t) ((char *) point - r.points->array);
  CHECK (o % r.points->elem_size == 0 && o / r.points->elem_size < r.points->elem_count, "process %d: %s passes a point that is not in the array", r.me, kname[r.s->kind]);
  u64 id = o / r.points->elem_size;
  CHECK (check_bytes (point, r.points->elem_size, mix (r.s->seed, id)), "process %d: %s changed a point", r.me, kname[r.s->kind]);
  return id;
}
static int event (p4est_t * p, int tree, p4est_quadrant_t * q, i64 num, int pf, int pl, void *point, int kind) {
  Rec & r = rec (); const Spec & s = *r.s;
  if (s.kind == PART_GFX || s.kind == PART_GFP) CHECK (p->user_pointer == &r, "process %d: %s does not pass the user's pointer", r.me, kname[s.kind]);
  else CHECK (p == r.p, "process %d: %s does not pass the forest", r.me, kname[s.kind]);
  Leaf l = leaf_of (q);
  Ev e { kind, tree, l, num, pf, pl, 0 };
  if (num >= 0) {
    CHECK (r.p != nullptr && tree >= r.p->first_local_tree && tree <= r.p->last_local_tree, "process %d: %s reports a leaf of tree %d", r.me, kname[s.kind], tree);
    p4est_tree_t *t = p4est_tree_array_index (r.p->trees, tree);
    i64 i = num - t->quadrants_offset;
    CHECK (i >= 0 && i < (i64) t->quadrants.elem_count && q == (p4est_quadrant_t *) t->quadrants.array + i, "process %d: %s passes leaf %lld %s that is not at this place of the storage", r.me, kname[s.kind], (long long) num, str (tree, l).c_str ());
  }
  else if (r.p && tree >= 0 && tree < (int) r.p->trees->elem_count) {
    sc_array_t *a = &p4est_tree_array_index (r.p->trees, tree)->quadrants;
    CHECK ((char *) q < a->array || (char *) q >= a->array + a->elem_count * a->elem_size, "process %d: %s passes a quadrant in storage without its number", r.me, kname[s.kind]);
  }
  if (kind == POST) { r.ev.push_back (e); return (int) (mix (s.seed, r.ev.size ()) & 1); }
  if (point) { e.kind = POINT; e.info = idof (r, point); r.ev.push_back (e); return s.dp (r.me, tree, l, e.info) ? 1 + (int) (e.info & 4) : 0; }
  int phase = !r.ev.empty () && r.ev.back ().kind == POINT && r.ev.back ().tree == tree && r.ev.back ().q == l && s.kind != SEARCH_REORDER;
  e.info = phase; r.ev.push_back (e);
  return s.dq (r.me, tree, l, phase) ? 1 + (int) (l.level & 2) : 0;
}
static int local_fn (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t n, void *pt) { CHECK (n >= -1 || n < 0, "n"); return event (p, t, q, n < 0 ? -1 : n, 0, 0, pt, QUAD); }
static int post_fn (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t n, void *pt) { CHECK (pt == nullptr, "process %d: search_reorder passes a point to the post callback", sim::rank ()); return event (p, t, q, n < 0 ? -1 : n, 0, 0, pt, POST); }
static int part_fn (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, int pf, int pl, void *pt) { return event (p, t, q, -1, pf, pl, pt, QUAD); }
static int all_fn (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, int pf, int pl, p4est_locidx_t n, void *pt) { return event (p, t, q, n < 0 ? -1 : n, pf, pl, pt, QUAD); }
static u64 vhash (const std::vector<int> & v) { u64 h = v.size (); for (int i : v) h = mix (h, (u64) i); return h; }
static int reorder_fn (p4est_t * p, sc_array_t * quads, sc_array_t * ind) {
  Rec & r = rec (); const Spec & s = *r.s;
  CHECK (p == r.p, "process %d: search_reorder does not pass the forest to the reorder callback", r.me);
  CHECK (quads->elem_size == sizeof (p4est_quadrant_t) && ind->elem_size == sizeof (p4est_topidx_t) && quads->elem_count > 0, "process %d: wrong arrays in the reorder callback", r.me);
  p4est_quadrant_t *q = (p4est_quadrant_t *) quads->array;
  bool roots = q->level == 0;
  int t0 = q->p.piggy1.which_tree;
  Leaf l { 0, -1, 0 }; int tree = -1;
  if (roots) {
    CHECK ((int) quads->elem_count == p->last_local_tree - p->first_local_tree + 1, "process %d: search_reorder passes %zu tree roots", r.me, quads->elem_count);
    for (size_t i = 0; i < quads->elem_count; ++i) CHECK (leaf_of (q + i) == (Leaf { 0, 0, 0 }) && q[i].p.piggy1.which_tree == p->first_local_tree + (int) i, "process %d: search_reorder passes a wrong tree root %zu", r.me, i);
  }
  else {
    l = leaf_of (q).parent (); tree = t0;
    CHECK (quads->elem_count == (size_t) NCH, "process %d: search_reorder passes %zu siblings", r.me, quads->elem_count);
    for (int i = 0; i < NCH; ++i) CHECK (leaf_of (q + i) == l.child (i) && q[i].p.piggy1.which_tree == tree, "process %d: search_reorder passes a wrong child %d", r.me, i);
  }
  std::vector<int> v;
  for (size_t i = 0; i < ind->elem_count; ++i) v.push_back (((p4est_topidx_t *) ind->array)[i]);
  r.ev.push_back (Ev { REORDER, tree, l, -1, 0, 0, vhash (v) });
  s.permute (r.me, tree, l, v);
  if (v.size () < ind->elem_count) sc_array_resize (ind, v.size ());
  for (size_t i = 0; i < v.size (); ++i) ((p4est_topidx_t *) ind->array)[i] = v[i];
  return s.dr (r.me, tree, l);
}

/* the documented recursion; levels that may be skipped are taken from the trace */
struct Model {
  const Spec & s; const Part & pa; int me; i64 lo, hi; const std::vector<Ev> & real; std::vector<Ev> out;
  typedef std::vector<u64> Ids;
  Leaf leaf (int t, i64 i) const { return pa.f->t[t][i]; }
  static Leaf nca (const Leaf & a, const Leaf & b) { Leaf x = a; Key e = b.end (); while (!(x.key <= b.key && x.end () >= e)) x = x.parent (); x.tag = 0; return x; }
  /* calls for one quadrant; false if the recursion ends. in reorder mode, phase 1 does not exist */
  bool visit (int t, const Leaf & q, i64 num, int pf, int pl, const Ids & act, Ids & next) {
    if (s.quad) { out.push_back (Ev { QUAD, t, q, num, pf, pl, 0 }); if (!s.dq (me, t, q, 0)) return false; }
    if (s.points) {
      for (u64 i : act) { out.push_back (Ev { POINT, t, q, num, pf, pl, i }); if (s.dp (me, t, q, i)) next.push_back (i); }
      if (s.kind != SEARCH_REORDER && s.post && s.kind != SEARCH && s.quad) { out.push_back (Ev { QUAD, t, q, num, pf, pl, 1 }); if (!s.dq (me, t, q, 1)) return false; }
    }
    return true;
  }
  void local (int t, Leaf n, i64 a, i64 e, const Ids & act) {     /* [a, e): leaf range in the tree, all within n */
    if (s.points && act.empty ()) return;
    Leaf top = nca (leaf (t, a), leaf (t, e - 1)), q = n;
    q.tag = 0;
    if (s.kind == SEARCH_REORDER) { if (s.skip) q = top; }
    else {
      q = top;
      if (out.size () < real.size ()) { const Ev & r = real[out.size ()];
        if (r.tree == t && r.q.level >= n.level && r.q.level <= top.level && r.q.key >= n.key && r.q.end () <= n.end () && r.q.key <= top.key && r.q.end () >= top.end ()) q = r.q; }
    }
    bool isleaf = e - a == 1 && q == leaf (t, a);
    i64 num = isleaf ? pa.off[t] + a - lo : -1;
    Ids next;
    bool go = visit (t, q, num, 0, 0, act, next);
    if (s.kind == SEARCH_REORDER && s.quad && !go) return;
    if (go && !isleaf && (!s.points || !next.empty ())) {
      std::vector<int> ch; i64 sp[NCH + 1]; sp[0] = a;
      for (int c = 0; c < NCH; ++c) { i64 b = sp[c]; while (b < e && leaf (t, b).key < q.child (c).end ()) ++b; sp[c + 1] = b; if (b > sp[c]) ch.push_back (c); }
      bool rec = true;
      if (s.kind == SEARCH_REORDER && s.reorder) {
        /* whether a single leaf below is subject to reordering is not documented */
        Ev w { REORDER, t, q, -1, 0, 0, vhash (ch) };
        if (e - a > 1 || (out.size () < real.size () && real[out.size ()] == w)) { out.push_back (w); s.permute (me, t, q, ch); rec = s.dr (me, t, q); }
      }
      if (rec) for (int c : ch) local (t, q.child (c), sp[c], sp[c + 1], next);
    }
    if (s.kind == SEARCH_REORDER && s.postfn) out.push_back (Ev { POST, t, q, num, 0, 0, 0 });
  }
  void whole (int t, const Leaf & q, const Ids & act) {           /* partition and all */
    if (s.points && act.empty ()) return;
    int pf = pa.first (t, q), pl = pa.last (t, q);
    i64 num = -1, g = pa.at (t, q.key);
    bool go = pf < pl;
    if (s.kind == ALL && pf == pl && pf == me) { if (leaf (t, g - pa.off[t]) == q) num = g - lo; else go = true; }
    Ids next;
    if (!visit (t, q, num, pf, pl, act, next) || !go || (s.points && next.empty ())) return;
    for (int c = 0; c < NCH; ++c) whole (t, q.child (c), next);
  }
  void run () {
    Ids all; for (int i = 0; i < s.np; ++i) all.push_back (i);
    Leaf root { 0, 0, 0 };
    int nt = (int) pa.f->t.size ();
    if (s.kind >= PART) { if (!s.quad && !s.points) return; for (int t = 0; t < nt; ++t) whole (t, root, all); return; }
    if (!s.quad && !s.points && (s.kind != SEARCH_REORDER || !s.postfn)) return;
    if (lo == hi) return;
    int t0 = 0, t1 = nt - 1; while (pa.off[t0 + 1] <= lo) ++t0; while (pa.off[t1] >= hi) --t1;
    std::vector<int> tr; for (int i = 0; i <= t1 - t0; ++i) tr.push_back (i);
    if (s.kind == SEARCH_REORDER && s.reorder) {
      out.push_back (Ev { REORDER, -1, Leaf { 0, -1, 0 }, -1, 0, 0, vhash (tr) });
      s.permute (me, -1, Leaf { 0, -1, 0 }, tr);
      if (!s.dr (me, -1, Leaf { 0, -1, 0 })) return;
    }
    for (int i : tr) { int t = t0 + i; local (t, root, std::max (lo, pa.off[t]) - pa.off[t], std::min (hi, pa.off[t + 1]) - pa.off[t], all); }
  }
};
static std::string text (const Ev & e) {
  static const char *n[] = { "quadrant", "point", "post", "reorder" };
  char b[200]; snprintf (b, sizeof b, "%s call for %s, number %lld, processes %d to %d%s%lld", n[e.kind], e.q.level < 0 ? "the roots" : DNS::str (e.tree, e.q).c_str (), (long long) e.num, e.pf, e.pl, e.kind == POINT ? ", point " : e.kind == QUAD && e.info ? ", second time " : ", ", (long long) e.info);
  return b;
}
static void sort_points (std::vector<Ev> & v) {
  for (size_t i = 0; i < v.size ();) { size_t j = i; while (j < v.size () && v[j].kind == POINT && v[j].tree == v[i].tree && v[j].q == v[i].q) ++j;
    std::sort (v.begin () + i, v.begin () + j, [] (const Ev & a, const Ev & b) { return a.info < b.info; }); i = j > i ? j : i + 1; }
}
static void positions (const Part & pa, std::vector<p4est_gloidx_t> & gfq, std::vector<p4est_quadrant_t> & gfp) {
  i64 n = pa.off.back ();
  for (i64 c : *pa.cuts) {
    gfq.push_back (c);
    int t = (int) pa.f->t.size (); Leaf l { 0, 0, 0 };
    if (c < n) { t = 0; while (pa.off[t + 1] <= c) ++t; l = pa.f->t[t][c - pa.off[t]]; }
    p4est_quadrant_t q = quad_of (Leaf { l.key, QML, 0 }); q.p.which_tree = t; gfp.push_back (q);
  }
}
static void perform (const Spec & s, const Part & pa, p4est_t * p, i64 lo, i64 hi) {
  Rec r { &s, sim::rank (), s.kind == PART_GFX || s.kind == PART_GFP ? nullptr : p, nullptr, {}, {} };
  cur (r.me) = &r;
  if (s.points) { r.points = sc_array_new_count (s.esize, s.np); for (int i = 0; i < s.np; ++i) fill_bytes (r.points->array + i * s.esize, s.esize, mix (s.seed, (u64) i)); }
  bool usefn = s.points || (s.seed & 1);         /* without points, the point callback is ignored */
  auto lf = s.quad ? local_fn : nullptr; auto pf = s.quad ? part_fn : nullptr; auto af = s.quad ? all_fn : nullptr;
  std::vector<p4est_gloidx_t> gfq; std::vector<p4est_quadrant_t> gfp;
  if (s.kind == PART_GFX || s.kind == PART_GFP) positions (pa, gfq, gfp);
  u64 msgs = sim::calls ();
  switch (s.kind) {
  case LOCAL: p4est_search_local (p, s.post, lf, usefn ? local_fn : nullptr, r.points); break;
  case SEARCH: p4est_search (p, lf, usefn ? local_fn : nullptr, r.points); break;
  case SEARCH_REORDER: p4est_search_reorder (p, s.skip, s.reorder ? reorder_fn : nullptr, lf, s.postfn ? post_fn : nullptr, s.points || (usefn && (s.quad || s.postfn)) ? local_fn : nullptr, r.points); break;
  case PART: p4est_search_partition (p, s.post, pf, usefn ? part_fn : nullptr, r.points); break;
  case PART_GFX: p4est_search_partition_gfx (gfq.data (), gfp.data (), (int) gfq.size () - 1, (int) pa.f->t.size (), s.post, &r, pf, usefn ? part_fn : nullptr, r.points); break;
  case PART_GFP: p4est_search_partition_gfp (gfp.data (), (int) gfq.size () - 1, (int) pa.f->t.size (), s.post, &r, pf, usefn ? part_fn : nullptr, r.points); break;
  default: p4est_search_all (p, s.post, af, usefn ? all_fn : nullptr, r.points);
  }
  CHECK (msgs == sim::calls (), "process %d: %s communicates", r.me, kname[s.kind]);
  for (int i = 0; i < s.np; ++i) if (s.points) CHECK (check_bytes (r.points->array + i * s.esize, s.esize, mix (s.seed, (u64) i)), "process %d: %s changed a point", r.me, kname[s.kind]);
  if (r.points) sc_array_destroy (r.points);
  sort_points (r.ev);
  Model m { s, pa, r.me, lo, hi, r.ev, {} };
  m.run ();
  for (size_t i = 0; i < std::max (m.out.size (), r.ev.size ()); ++i)
    CHECK (i < m.out.size () && i < r.ev.size () && m.out[i] == r.ev[i], "process %d: call %zu of %s (%zu calls, expected %zu) is %s, expected %s", r.me, i, kname[s.kind], r.ev.size (), m.out.size (),
           i < r.ev.size () ? text (r.ev[i]).c_str () : "missing", i < m.out.size () ? text (m.out[i]).c_str () : "nothing");
  eng::checks (r.ev.size () + 1);
}
static Spec draw_spec (const Part & pa, bool other) {
  Spec s;
  s.kind = other ? PART_GFX + (int) draw (2) : weighted ({ 25, 5, 25, 15, 0, 0, 25 });
  s.seed = draw64 (); s.quad = !chance (15); s.post = draw (2); s.postfn = !chance (20); s.points = chance (60); s.skip = draw (2); s.reorder = chance (75); s.perrank = draw (2);
  s.qd = 100 - (int) draw (2) * range (0, 30); s.rd = 100 - (int) draw (2) * range (0, 20); s.noise = (int) draw (2) * range (0, 40); s.how = (int) draw (3);
  if (s.points) {
    s.np = chance (5) ? 0 : range (1, 12); s.esize = 1 + draw (24);
    i64 n = pa.off.back ();
    for (int i = 0; i < s.np; ++i) { i64 g = (i64) draw (n); int t = 0; while (pa.off[t + 1] <= g) ++t; const Leaf & l = pa.f->t[t][g - pa.off[t]];
      Key k = l.key; switch (draw (3)) { case 1: k = l.end () - 1; break; case 2: k += (Key) draw64 () % qvol (l.level); } s.pt.push_back (Point { (u64) i, t, k }); }
  }
  if (s.noise > 5 && s.points && s.kind == SEARCH_REORDER && !s.skip) s.noise = 5;
  describe ("%s%s%s%s%s%s, %d points of %zu bytes, %d%% %d%% noise %d%%; ", kname[s.kind], s.quad ? "" : " no quadrant callback", s.post ? " post" : "", s.kind == SEARCH_REORDER && s.skip ? " skip" : "",
            s.kind == SEARCH_REORDER && s.reorder ? " reorder" : "", s.points ? "" : " without points", s.np, s.esize, s.qd, s.rd, s.noise);
  label ("%s", kname[s.kind]);
  return s;
}

/* --------------------------------------------------------------- helpers */
static Leaf draw_near (const Built & b) {       /* some quadrant related to a leaf */
  const GL & g = b.leaves[draw (b.leaves.size ())]; Leaf l = g.l;
  switch (draw (4)) { case 1: for (int i = range (1, 3); i > 0 && l.level > 0; --i) l = l.parent (); break;
  case 2: for (int i = range (1, 3); i > 0 && l.level < QML; --i) l = l.child ((int) draw (NCH)); break;
  case 3: l = Leaf { draw (2) ? l.key : l.end () - qvol (QML), QML, 0 }; }
  return l;
}
static void bounds (const Built & b) {
  std::vector<Leaf> v; int n = range (0, 40);
  for (int i = 0; i < n; ++i) v.push_back (draw_near (b));
  std::sort (v.begin (), v.end ());
  Leaf q = n && draw (2) ? v[draw (n)] : draw_near (b);
  sc_array_t *a = sc_array_new_count (sizeof (p4est_quadrant_t), n);
  for (int i = 0; i < n; ++i) ((p4est_quadrant_t *) a->array)[i] = quad_of (v[i]);
  p4est_quadrant_t x = quad_of (q);
  for (int g = 0; g < std::max (n, 1); ++g) {
    i64 lo = std::lower_bound (v.begin (), v.end (), q) - v.begin (), hi = std::upper_bound (v.begin (), v.end (), q) - v.begin () - 1;
    if (lo == n) lo = -1;
    ssize_t r = p4est_find_lower_bound (a, &x, g);
    CHECK (r == lo, "p4est_find_lower_bound of %s among %d quadrants, guess %d, is %zd, expected %lld", str (q).c_str (), n, g, r, (long long) lo);
    r = p4est_find_higher_bound (a, &x, g);
    CHECK (r == hi, "p4est_find_higher_bound of %s among %d quadrants, guess %d, is %zd, expected %lld", str (q).c_str (), n, g, r, (long long) hi);
  }
  sc_array_destroy (a); eng::checks (2 * n);
}
static void split (const Built & b) {
  /* some sequence of leaves below a common ancestor */
  const Tree & t = b.forest.t[draw (b.conn.nt)];
  size_t i = draw (t.size ()), j = i + draw (t.size () - i);
  Leaf anc = Model::nca (t[i], t[j]);
  if (i == j) { if (anc.level == 0) return; anc = anc.parent (); }
  for (int k = range (0, 2); k > 0 && anc.level > 0; --k) anc = anc.parent ();
  int n = chance (5) ? 0 : (int) (j - i + 1);
  sc_array_t *a = sc_array_new_count (sizeof (p4est_quadrant_t), n);
  for (int k = 0; k < n; ++k) ((p4est_quadrant_t *) a->array)[k] = quad_of (t[i + k]);
  size_t ind[NCH + 1]; memset (ind, 0xff, sizeof ind);
  p4est_split_array (a, anc.level, ind);
  for (int c = 0; c <= NCH; ++c) {
    size_t w = 0; while (w < (size_t) n && (c == NCH || t[i + w].key < anc.key + (Key) c * qvol (anc.level + 1))) ++w;
    CHECK (ind[c] == w, "p4est_split_array of %d leaves below %s: position %d is %zu, expected %zu", n, str (anc).c_str (), c, ind[c], w);
  }
  sc_array_destroy (a); eng::checks (NCH + 1);
}
static void boundaries (const Built & b) {
  Leaf c = draw_near (b); if (draw (2)) c = Leaf { 0, 0, 0 };
  Key n = qvol (c.level) / qvol (QML);           /* smallest quadrants inside */
  auto pos = [&] () -> Key { int k = range (0, QML - c.level);       /* near the boundary of some descendant */
    Key blk = qvol (c.level + k) / qvol (QML), p = blk * (Key) draw ((u64) std::min<Key> (n / blk, 1 << 20)); i64 d = (i64) draw (7) - 3;
    if (draw (3) == 0) p = n - 1 - p;
    if (d < 0 && (Key) -d > p) return 0;
    p += d; return p >= n ? n - 1 : p; };
  Key f = pos (), l = pos (); if (draw (3) == 0) { l = f + draw (9); if (l >= n) l = n - 1; }
  if (f > l) std::swap (f, l);
  bool nf = f == 0 && c.key == 0 && draw (2), nl = l == n - 1 && c.end () == qvol (0) && draw (2);
  if (chance (10) && c.key == 0) f = 0, nf = true;
  if (chance (10) && c.end () == qvol (0)) l = n - 1, nl = true;
  /* decompose the range and find what its pieces touch */
  Key u = qvol (QML), s = c.key + f * u, e = c.key + (l + 1) * u;
  int faces[NF] = { 0 }, edges[12] = { 0 }, corners[NCH] = { 0 };
  Pt base = deinterleave (c.key); i64 H = qlen (c.level);
  while (s < e) {
    int lev = QML; while (lev > 0 && s % qvol (lev - 1) == 0 && s + qvol (lev - 1) <= e) --lev;
    Pt p = deinterleave (s); i64 h = qlen (lev); unsigned lo = 0, hi = 0;
    for (int a = 0; a < DIM; ++a) { if (p.x[a] == base.x[a]) lo |= 1u << a; if (p.x[a] + h == base.x[a] + H) hi |= 1u << a; }
    auto touch = [&] (unsigned axes, unsigned bits) { return ((lo | ~axes | bits) & (hi | ~axes | ~bits) & axes) == axes; };
    for (int i = 0; i < NF; ++i) faces[i] |= touch (1u << (i / 2), (i & 1) << (i / 2));
#if VDIM == 3
    for (int i = 0; i < 12; ++i) { int ax = i / 4, a0 = ax == 0 ? 1 : 0, a1 = ax == 2 ? 1 : 2; edges[i] |= touch (1u << a0 | 1u << a1, (i & 1u) << a0 | ((i >> 1) & 1u) << a1); }
#endif
    for (int i = 0; i < NCH; ++i) corners[i] |= touch (NCH - 1, i);
    s += qvol (lev);
  }
  i64 w = 0; int sh = 0;
  for (int i = 0; i < NF; ++i) w |= (i64) faces[i] << sh++;
  if (DIM == 3) for (int i = 0; i < 12; ++i) w |= (i64) edges[i] << sh++;
  for (int i = 0; i < NCH; ++i) w |= (i64) corners[i] << sh++;
  p4est_quadrant_t lq = quad_of (Leaf { c.key + f * u, QML, 0 }), uq = quad_of (Leaf { c.key + l * u, QML, 0 });
  int gf[NF], gc[NCH]; int ge[12]; memset (gf, 7, sizeof gf); memset (gc, 7, sizeof gc); memset (ge, 7, sizeof ge);
  bool wf = draw (4), wc = draw (4), we = draw (4);
  i64 r = p4est_find_range_boundaries (nf ? nullptr : &lq, nl ? nullptr : &uq, c.level, wf ? gf : nullptr,
#if VDIM == 3
                                       we ? ge : nullptr,
#endif
                                       wc ? gc : nullptr);
  std::string ctx = "p4est_find_range_boundaries in " + str (c) + " from " + str (leaf_of (&lq)) + (nf ? " (NULL)" : "") + " to " + str (leaf_of (&uq)) + (nl ? " (NULL)" : "");
  CHECK (r == w, "%s returns %llx, expected %llx", ctx.c_str (), (long long) r, (long long) w);
  for (int i = 0; wf && i < NF; ++i) CHECK (!gf[i] == !faces[i], "%s: face %d is %d", ctx.c_str (), i, gf[i]);
  for (int i = 0; we && DIM == 3 && i < 12; ++i) CHECK (!ge[i] == !edges[i], "%s: edge %d is %d", ctx.c_str (), i, ge[i]);
  for (int i = 0; wc && i < NCH; ++i) CHECK (!gc[i] == !corners[i], "%s: corner %d is %d", ctx.c_str (), i, gc[i]);
  eng::checks (1);
}
static void partition () {
  int n = range (1, 20); std::vector<p4est_gloidx_t> v; p4est_gloidx_t x = 0;
  for (int i = 0; i < n; ++i) { if (draw (3)) x += draw (6); v.push_back (x); }
  for (int k = 0; k < 4; ++k) {
    p4est_gloidx_t a = range (-1, (int) x + 1), e = a + range (0, (int) x + 2), b0 = -7, e0 = -7;
    p4est_find_partition (n, v.data (), a, e, &b0, &e0);
    i64 wb = std::lower_bound (v.begin (), v.end (), a) - v.begin (), we = std::lower_bound (v.begin (), v.end (), e) - v.begin ();
    if (wb < n) CHECK (b0 == wb, "p4est_find_partition: begin is %lld, expected %lld for %lld", (long long) b0, (long long) wb, (long long) a);
    if (we < n) CHECK (e0 == we, "p4est_find_partition: end is %lld, expected %lld for %lld", (long long) e0, (long long) we, (long long) e);
    eng::checks (2);
  }
}
void prop () {
  BuildOpts o; o.maxP = thorough () ? 17 : 11; o.maxleaves = thorough () ? 900 : 300; Built b; draw_built (b, o);
  Part pa; pa.set (b.conn, b.forest, b.cuts);
  std::vector<Spec> specs; for (int i = range (1, 4); i > 0; --i) specs.push_back (draw_spec (pa, false));
  Cuts other = draw_cuts (pa.off.back (), draw_P (20)); Part pb; pb.set (b.conn, b.forest, other);
  std::vector<Spec> more; if (draw (2)) more.push_back (draw_spec (pb, true));
  for (int i = 0; i < 3; ++i) { bounds (b); split (b); boundaries (b); boundaries (b); }
  partition ();
  if (b.leaves.size () > 1 && b.cfg.P > 1) nontrivial ();
  MemMark mark = mem_mark ();
  std::vector<u64> cum (b.cfg.P); for (auto & c : cum) c = draw64 ();
  sim::run (b.cfg, [&] (int r) {
    p4est_t *p = build (b);
    unsigned crc = p4est_checksum (p); long rev = p4est_revision (p);
    for (auto & s : specs) perform (s, pa, p, b.cuts[r], b.cuts[r + 1]);
    for (auto & s : more) perform (s, pb, p, b.cuts[r], b.cuts[r + 1]);
    i64 n = b.cuts[r + 1] - b.cuts[r];
    if (n > 0) for (int k = 0; k < 6; ++k) {
      u64 h = mix (cum[r], k); i64 i = (i64) (h % (u64) n), g = b.cuts[r] + i; h = mix (h);
      p4est_topidx_t t = -1; p4est_locidx_t id = -7; bool wt = h & 3, wi = h & 12;
      if (wt && (h & 16)) t = p->first_local_tree + (int) ((h >> 8) % (u64) (p->last_local_tree - p->first_local_tree + 1));
      p4est_quadrant_t *q = p4est_find_quadrant_cumulative (p, i, wt ? &t : nullptr, wi ? &id : nullptr);
      i64 in = g - std::max (b.cuts[r], pa.off[b.leaves[g].tree]);
      CHECK (q == (p4est_quadrant_t *) p4est_tree_array_index (p->trees, b.leaves[g].tree)->quadrants.array + in && (!wt || t == b.leaves[g].tree) && (!wi || id == in),
             "process %d: p4est_find_quadrant_cumulative of %lld yields tree %d, number %d, expected %d and %lld", r, (long long) i, t, id, b.leaves[g].tree, (long long) in);
      eng::checks (1);
    }
    compare (p, b, "after the searches");
    CHECK (p4est_revision (p) == rev && p4est_checksum (p) == crc, "a search changed the forest");
    destroy (p);
  });
  mem_check (mark, "after the searches");
}
}
