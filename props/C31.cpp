/* Linear octree algorithms on a single tree: predicates, linearization, completion, local balance, ownership */
#include "harness.h"
#include <mpi.h>
#if VDIM == 3
#include <p8est_extended.h>
#else
#include <p4est_extended.h>
#endif
namespace DNS {
using namespace eng;
typedef std::vector<Leaf> L;

/* ---------------------------------------------------------------- model */
static bool m_sorted (const L & v) { for (size_t i = 1; i < v.size (); ++i) if (!(v[i - 1] < v[i])) return false; return true; }
static bool m_linear (const L & v) { if (!m_sorted (v)) return false; for (size_t i = 1; i < v.size (); ++i) if (v[i - 1].end () > v[i].key) return false; return true; }
static bool m_complete (const L & v) { for (size_t i = 1; i < v.size (); ++i) if (v[i - 1].end () != v[i].key) return false; return true; }
/* the coarsest octants that fill [a, b) */
static void fill (Key a, Key b, L & out) {
  while (a < b) {
    int l = QML; while (l > 0 && a % qvol (l - 1) == 0 && a + qvol (l - 1) <= b) --l;
    if (a + qvol (l) > b) internal ("odd gap");
    out.push_back (Leaf { a, l, 0 }); a += qvol (l);
  }
}
static L complete (const L & v, Key a, Key b) { L r; for (auto & l : v) { fill (a, l.key, r); r.push_back (l); a = l.end (); } fill (a, b, r); return r; }
static Leaf any_leaf (int lmin = 0, int lmax = QML) {
  int l = chance (50) ? lmin + (int) draw (std::min (5, lmax - lmin + 1)) : lmin + (int) draw (lmax - lmin + 1);
  i64 x[3] = { 0, 0, 0 };
  for (int i = 0; i < DIM; ++i) { i64 n = (i64) 1 << l; i64 k = (i64) draw (n); switch (draw (4)) { case 0: k = 0; break; case 1: k = n - 1; break; case 2: k = n / 2; } x[i] = std::min (k, n - 1) * qlen (l); }
  return Leaf { interleave (x), l, 0 };
}
static L any_list (int n) {
  L v;
  for (int i = 0; i < n; ++i) {
    Leaf l = any_leaf ();
    if (!v.empty ()) {
      Leaf o = v[draw (v.size ())];
      switch (draw (8)) {
      case 0: l = o; break;
      case 1: for (int k = range (1, 4); k > 0 && o.level > 0; --k) o = o.parent (); l = o; break;
      case 2: for (int k = range (1, 3); k > 0 && o.level < QML; --k) o = o.child ((int) draw (NCH)); l = o; break;
      case 3: if (o.end () < qvol (0)) { o.key = o.end (); l = o; } break;
      case 4: if (o.level > 0) l = o.parent ().child ((int) draw (NCH)); break;
      case 5: if (o.end () < qvol (0)) { Key k = o.end (); int m = o.level + (int) draw (QML - o.level + 1); l = Leaf { k, m, 0 }; } break;
      }
    }
    v.push_back (l);
  }
  return v;
}
/* lists with octants around the tree: two next to each other outside the same edge or corner may have any order */
static void ring_lists () {
  std::vector<p4est_quadrant_t> v; int n = range (2, 6), lev = (int) draw (QML + 1); bool thin = chance (60); int side[3];
  for (int a = 0; a < 3; ++a) side[a] = (int) draw (3) - 1;
  for (int i = 0; i < n; ++i) {
    if (!v.empty () && chance (15)) { v.push_back (v.back ()); continue; }
    int l = chance (60) ? lev : (int) draw (QML + 1); i64 x[3] = { 0, 0, 0 };
    for (int a = 0; a < DIM; ++a) { int s = thin || chance (70) ? side[a] : (int) draw (3) - 1; i64 m = (i64) 1 << l, k = (i64) draw (std::min<i64> (m, 4)); if (draw (2)) k = m - 1 - k; x[a] = s * RL + k * qlen (l); }
    p4est_quadrant_t q; memset (&q, 0, sizeof q); q.x = (p4est_qcoord_t) x[0]; q.y = (p4est_qcoord_t) x[1]; D3 (q.z = (p4est_qcoord_t) x[2];) q.level = (int8_t) l; v.push_back (q);
  }
  if (chance (70)) std::stable_sort (v.begin (), v.end (), [] (const p4est_quadrant_t & a, const p4est_quadrant_t & b) { return p4est_quadrant_compare (&a, &b) < 0; });
  bool sorted = true, linear = true;
  for (int i = 1; i < n; ++i) {
    int out = 0; bool same = true, inside = v[i - 1].level < v[i].level;
    for (int a = 0; a < DIM; ++a) {
      auto co = [&] (const p4est_quadrant_t & q) { return (i64) (a == 0 ? q.x : a == 1 ? q.y : D3 (q.z +) 0); };
      i64 x = co (v[i - 1]), y = co (v[i]); int sx = x < 0 ? -1 : x >= RL, sy = y < 0 ? -1 : y >= RL;
      same = same && sx == sy; out += sy != 0; inside = inside && y >= x && y < x + qlen (v[i - 1].level);
    }
    if (same && out >= 2) continue;
    if (p4est_quadrant_compare (&v[i - 1], &v[i]) >= 0) sorted = linear = false;
    if (inside) linear = false;
  }
  p4est_tree_t t; memset (&t, 0, sizeof t); sc_array_init_data (&t.quadrants, v.data (), sizeof (p4est_quadrant_t), v.size ());
  std::string s; for (auto & q : v) { s += " (" + std::to_string (q.x) + "," + std::to_string (q.y); D3 (s += "," + std::to_string (q.z);) s += ")L" + std::to_string (q.level); }
  CHECK (!!p4est_tree_is_almost_sorted (&t, 0) == sorted, "p4est_tree_is_almost_sorted is wrong for%s", s.c_str ());
  CHECK (!!p4est_tree_is_almost_sorted (&t, 1) == linear, "p4est_tree_is_almost_sorted for linearity is wrong for%s", s.c_str ());
  checks (2);
}
/* a forest of one tree to lend its memory pools */
struct Lend {
  p4est_connectivity_t *c; p4est_t *p;
  Lend (size_t data, void *up = nullptr) { c = p4est_connectivity_new_byname ("unit"); p = p4est_new_ext (sc_MPI_COMM_WORLD, c, 0, 0, 1, data, nullptr, up); }
  void done () { p4est_destroy (p); p4est_connectivity_destroy (c); }
};
struct TreeBox {
  p4est_tree_t t;
  TreeBox () { memset (&t, 0, sizeof t); sc_array_init (&t.quadrants, sizeof (p4est_quadrant_t)); }
  void set (const L & v) { sc_array_resize (&t.quadrants, v.size ()); memset (t.quadrants_per_level, 0, sizeof t.quadrants_per_level); t.maxlevel = 0;
    for (size_t i = 0; i < v.size (); ++i) { *p4est_quadrant_array_index (&t.quadrants, i) = quad_of (v[i]); ++t.quadrants_per_level[v[i].level]; t.maxlevel = std::max<int> (t.maxlevel, v[i].level); } }
  L get () { L v; for (size_t i = 0; i < t.quadrants.elem_count; ++i) v.push_back (leaf_of (p4est_quadrant_array_index (&t.quadrants, i))); return v; }
  ~TreeBox () { }
  void done () { sc_array_reset (&t.quadrants); }
};
static void counters (p4est_tree_t * t, const char *ctx) {
  i64 n[ML + 1] = { 0 }; int ml = 0;
  for (size_t i = 0; i < t->quadrants.elem_count; ++i) { auto *q = p4est_quadrant_array_index (&t->quadrants, i); ++n[q->level]; ml = std::max<int> (ml, q->level); }
  for (int l = 0; l <= QML; ++l) CHECK (t->quadrants_per_level[l] == n[l], "%s: %lld leaves of level %d counted, there are %lld", ctx, (long long) t->quadrants_per_level[l], l, (long long) n[l]);
  CHECK (t->maxlevel == ml, "%s: maximum level %d, expected %d", ctx, t->maxlevel, ml);
}
static std::string text (const L & v) { std::string s; for (size_t i = 0; i < v.size () && i < 24; ++i) s += str (v[i]) + " "; return s; }
static void same (const L & got, const L & want, const char *ctx) {
  for (size_t i = 0; i < std::min (got.size (), want.size ()); ++i) CHECK (got[i] == want[i], "%s: entry %zu is %s, expected %s", ctx, i, str (got[i]).c_str (), str (want[i]).c_str ());
  CHECK (got.size () == want.size (), "%s: %zu entries, expected %zu", ctx, got.size (), want.size ());
  checks (want.size ());
}
/* what the callbacks saw */
struct Log { std::map<std::pair<int, Leaf>, u64> live; int tree = -1; u64 n = 0, inits = 0; const char *ctx = ""; };
static void init_cb (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) {
  Log & g = *(Log *) p->user_pointer; Leaf l = leaf_of (q);
  CHECK (t == g.tree, "%s: init callback for tree %d, not %d", g.ctx, (int) t, g.tree);
  CHECK (!g.live.count ({ t, l }), "%s: init callback for %s, which exists already", g.ctx, str (l).c_str ());
  u64 tag = mix (77, ++g.n); g.live[{ t, l }] = tag; ++g.inits;
  if (p->data_size) fill_bytes (q->p.user_data, p->data_size, tag);
}
static void replace_cb (p4est_t * p, p4est_topidx_t t, int no, p4est_quadrant_t * out[], int ni, p4est_quadrant_t * in[]) {
  Log & g = *(Log *) p->user_pointer;
  CHECK (t == g.tree && no == 1 && ni == NCH, "%s: replace callback for tree %d with %d and %d leaves", g.ctx, (int) t, no, ni);
  Leaf l = leaf_of (out[0]);
  auto it = g.live.find ({ t, l });
  CHECK (it != g.live.end (), "%s: replaced leaf %s is unknown", g.ctx, str (l).c_str ());
  if (p->data_size) CHECK (check_bytes (out[0]->p.user_data, p->data_size, it->second), "%s: replaced leaf %s has wrong data", g.ctx, str (l).c_str ());
  g.live.erase (it);
  for (int k = 0; k < NCH; ++k) {
    Leaf c = leaf_of (in[k]); CHECK (c == l.child (k), "%s: child %d of %s is %s", g.ctx, k, str (l).c_str (), str (c).c_str ());
    auto jt = g.live.find ({ t, c }); CHECK (jt != g.live.end (), "%s: child %s has not been initialized", g.ctx, str (c).c_str ());
    if (p->data_size) CHECK (check_bytes (in[k]->p.user_data, p->data_size, jt->second), "%s: child %s has wrong data", g.ctx, str (c).c_str ());
  }
}
static void data_ok (p4est_t * p, int t, sc_array_t * a, Log & g, const char *ctx) {
  for (size_t i = 0; i < a->elem_count; ++i) {
    auto *q = p4est_quadrant_array_index (a, i); auto it = g.live.find ({ t, leaf_of (q) });
    CHECK (it != g.live.end (), "%s: leaf %s has not been initialized", ctx, str (leaf_of (q)).c_str ());
    if (p->data_size) CHECK (check_bytes (q->p.user_data, p->data_size, it->second), "%s: leaf %s has wrong data", ctx, str (leaf_of (q)).c_str ());
  }
}
static sim::Config one () { sim::Config c = draw_sim (1); c.P = 1; return c; }

static void predicates () {
  label ("mode predicates");
  L v = any_list (range (0, 10));
  L base; std::vector<L> lists { v };
  std::sort (v.begin (), v.end ()); lists.push_back (v);
  v.erase (std::unique (v.begin (), v.end ()), v.end ()); lists.push_back (v);
  L lin; for (size_t i = 0; i < v.size (); ++i) if (i + 1 == v.size () || v[i + 1].key >= v[i].end ()) lin.push_back (v[i]);
  lists.push_back (lin);
  if (!lin.empty ()) {
    L c = complete (lin, lin[0].key, lin.back ().end ());
    if (c.size () < 3000) {
      lists.push_back (c);
      for (int k = 0; k < 2 && c.size () > 1; ++k) {    /* spoil it */
        L d = c; size_t i = draw (d.size ());
        switch (draw (5)) { case 0: d.erase (d.begin () + i); break; case 1: std::swap (d[i], d[draw (d.size ())]); break; case 2: d[i] = d[i].level ? d[i].parent () : d[i]; break;
        case 3: if (d[i].level < QML) d[i] = d[i].child ((int) draw (NCH)); break; case 4: d.insert (d.begin () + i, d[i]); }
        lists.push_back (d);
      }
    }
  }
  describe ("lists: %s; ", text (lists[0]).c_str ());
  if (lin.size () > 1 && lin.size () < lists[0].size ()) nontrivial ();
  size_t ds = draw_data_size ();
  MemMark mm = mem_mark ();
  sim::run (one (), [&] (int) {
    Log g; g.tree = 0; Lend e (ds, &g); TreeBox b;
    for (size_t k = 0; k < lists.size (); ++k) {
      b.set (lists[k]); const L & l = lists[k];
      std::string s = "list " + std::to_string (k) + ": " + text (l);
      CHECK (!!p4est_tree_is_sorted (&b.t) == m_sorted (l), "p4est_tree_is_sorted is wrong for %s", s.c_str ());
      CHECK (!!p4est_tree_is_linear (&b.t) == m_linear (l), "p4est_tree_is_linear is wrong for %s", s.c_str ());
      CHECK (!!p4est_tree_is_complete (&b.t) == m_complete (l), "p4est_tree_is_complete is wrong for %s", s.c_str ());
      CHECK (!!p4est_tree_is_almost_sorted (&b.t, 0) == m_sorted (l), "p4est_tree_is_almost_sorted is wrong for %s", s.c_str ());
      CHECK (!!p4est_tree_is_almost_sorted (&b.t, 1) == m_linear (l), "p4est_tree_is_almost_sorted for linearity is wrong for %s", s.c_str ());
      checks (5);
      if (k == 0) ring_lists ();
      /* checksum of a part equals that of a list that holds only the part */
      size_t from = draw (l.size () + 1);
      sc_array_t *tmp = draw (2) ? sc_array_new (4) : nullptr;
      unsigned c1 = p4est_quadrant_checksum (&b.t.quadrants, tmp, from);
      if (tmp) { CHECK (tmp->elem_count == (l.size () - from) * (DIM + 1), "the array for the checksum has %zu entries", tmp->elem_count); sc_array_destroy (tmp); }
      L part (l.begin () + from, l.end ()); TreeBox o; o.set (part);
      for (size_t i = 0; i < part.size (); ++i) p4est_quadrant_array_index (&o.t.quadrants, i)->p.user_data = (void *) &o;
      unsigned c2 = p4est_quadrant_checksum (&o.t.quadrants, nullptr, 0);
      CHECK (c1 == c2, "checksum %x from entry %zu, %x for a list of these entries", c1, from, c2);
      if (!part.empty ()) {
        size_t i = draw (part.size ()); auto *q = p4est_quadrant_array_index (&o.t.quadrants, i);
        L ch = part; if (ch[i].level < QML) { ch[i] = Leaf { ch[i].key, ch[i].level + 1, 0 }; *q = quad_of (ch[i]);
          unsigned c3 = p4est_quadrant_checksum (&o.t.quadrants, nullptr, 0);
          bool old = ch[i].level == P4EST_OLD_QMAXLEVEL + 1;
          CHECK (old || c3 != c2, "the checksum does not see the level of entry %zu", i); }
      }
      o.done ();
      /* sorted lists with overlaps are made linear */
      if (k >= 1 && k <= 3 && !l.empty ()) {
        L want; for (size_t i = 0; i < l.size (); ++i) if (i + 1 == l.size () || l[i + 1].key >= l[i].end ()) want.push_back (l[i]);
        g.live.clear ();
        std::vector<u64> id;
        for (size_t i = 0; i < l.size (); ++i) { auto *q = p4est_quadrant_array_index (&b.t.quadrants, i); g.live.erase ({ 0, l[i] }); p4est_quadrant_init_data (e.p, 0, q, init_cb); }
        /* equal entries carry data of their own, any of which may survive */
        size_t before = e.p->user_data_pool ? e.p->user_data_pool->elem_count : 0;
        size_t rem = p4est_linearize_tree (e.p, &b.t);
        same (b.get (), want, "p4est_linearize_tree");
        CHECK (rem == l.size () - want.size (), "%zu quadrants removed, expected %zu", rem, l.size () - want.size ());
        counters (&b.t, "p4est_linearize_tree");
        if (k > 1) data_ok (e.p, 0, &b.t.quadrants, g, "p4est_linearize_tree");
        if (ds) CHECK (before - e.p->user_data_pool->elem_count == rem, "user data of %zu quadrants were freed, expected %zu", before - e.p->user_data_pool->elem_count, rem);
        for (size_t i = 0; i < b.t.quadrants.elem_count; ++i) p4est_quadrant_free_data (e.p, p4est_quadrant_array_index (&b.t.quadrants, i));
      }
    }
    b.done (); e.done ();
  });
  mem_check (mm, "after the predicates");
}
static void region () {
  label ("mode region");
  Leaf a = any_leaf (1), b;
  for (int k = 0;; ++k) {
    b = any_leaf (1);
    if (draw (2)) { b = a; int up = (int) draw (4); while (up-- > 0 && b.level > 0) b = b.parent (); b.key = b.end () < qvol (0) ? b.end () : 0; int dn = (int) draw (6); while (dn-- > 0 && b.level < QML) b = b.child ((int) draw (NCH)); }
    if (a.end () <= b.key) break;
    if (b.end () <= a.key) { std::swap (a, b); break; }
    if (k > 20) discard ();
  }
  int ia = (int) draw (2), ib = (int) draw (2), tree = (int) draw (5); size_t ds = draw_data_size (); bool cb = draw (4);
  describe ("region from %s (%d) to %s (%d); ", str (a).c_str (), ia, str (b).c_str (), ib);
  L want; if (ia) want.push_back (a); fill (a.end (), b.key, want); if (ib) want.push_back (b);
  if (want.size () > 3) nontrivial ();
  MemMark mm = mem_mark ();
  sim::run (one (), [&] (int) {
    Log g; g.tree = tree; g.ctx = "p4est_complete_region"; Lend e (ds, &g); TreeBox box;
    p4est_quadrant_t qa = quad_of (a), qb = quad_of (b);
    p4est_complete_region (e.p, &qa, ia, &qb, ib, &box.t, tree, cb ? init_cb : nullptr);
    same (box.get (), want, "p4est_complete_region"); counters (&box.t, "p4est_complete_region");
    CHECK (g.inits == (cb ? want.size () : 0), "init callback called %llu times for %zu octants", (unsigned long long) g.inits, want.size ());
    if (cb) data_ok (e.p, tree, &box.t.quadrants, g, "p4est_complete_region");
    for (size_t i = 0; i < box.t.quadrants.elem_count; ++i) p4est_quadrant_free_data (e.p, p4est_quadrant_array_index (&box.t.quadrants, i));
    box.done (); e.done ();
  });
  mem_check (mm, "after p4est_complete_region");
}
static bool touch (const Leaf & a, const Leaf & b, int codim) {
  Pt p = deinterleave (a.key), q = deinterleave (b.key); int n = 0;
  for (int i = 0; i < DIM; ++i) {
    i64 lo = std::max (p.x[i], q.x[i]), hi = std::min (p.x[i] + qlen (a.level), q.x[i] + qlen (b.level));
    if (lo > hi) return false;
    if (lo == hi) ++n;
  }
  return n >= 1 && n <= codim;
}
static void subtree () {
  label ("mode subtree");
  static Conn unit; if (unit.nt == 0) { p4est_connectivity_t *c = p4est_connectivity_new_byname ("unit"); unit.from (c); p4est_connectivity_destroy (c); }
  Built b; BuildOpts o; o.maxP = 7; o.maxleaves = 150; o.maxtrees = 12; draw_built (b, o);
  int P = b.cfg.P, codim = (int) draw (DIM + 1);        /* 0: completion only */
  bool cb = draw (4), ext = codim > 0 && cb && draw (2);
  u64 hs = draw64 (); int keep = pick (std::vector<int> { 100, 90, 60, 30, 10, 3 });
  auto kept = [&] (i64 g) { return (int) (mix (hs, (u64) g) % 100) < keep; };
  describe ("subtrees with %d%% of the leaves, codim %d%s; ", keep, codim, ext ? ", replace" : "");
  struct Part { int tree; Key a, z; L in, want; bool exact; };
  std::vector<std::vector<Part>> parts (P); bool over = false; i64 changed = 0;
  for (int r = 0; r < P; ++r) {
    for (i64 i = b.cuts[r]; i < b.cuts[r + 1];) {
      Part p; p.tree = b.leaves[i].tree; p.a = b.leaves[i].l.key; i64 j = i;
      for (; j < b.cuts[r + 1] && b.leaves[j].tree == p.tree; ++j) { if (kept (j) || (codim && (j == i || j + 1 == b.cuts[r + 1] || b.leaves[j + 1].tree != p.tree))) p.in.push_back (b.leaves[j].l); p.z = b.leaves[j].l.end (); }
      if (p.in.empty ()) { for (i64 k = i; k < j; ++k) if (k == i + (i64) (hs % (u64) (j - i))) p.in.push_back (b.leaves[k].l); }
      p.want = complete (p.in, p.a, p.z); p.exact = true;
      if (codim) {
        Forest f; f.conn = &unit; f.t.resize (1); f.t[0] = complete (p.want, 0, qvol (0));
        balance (f, codim, [] (int, const Leaf &) { return 0; }, 3000, &over); if (over) discard ();
        p.exact = p.a == 0 && p.z == qvol (0);
        p.want.clear (); for (auto & l : f.t[0]) if (l.key >= p.a && l.key < p.z) p.want.push_back (l);
      }
      changed += p.want.size () != p.in.size ();
      parts[r].push_back (p); i = j;
    }
  }
  if (changed) nontrivial ();
  MemMark mm = mem_mark ();
  sim::run (b.cfg, [&] (int r) {
    Log g; p4est_t *p = build (b, &g); p->user_pointer = &g;
    for (auto & x : parts[r]) {
      p4est_tree_t *t = p4est_tree_array_index (p->trees, x.tree); size_t k = 0;
      const char *ctx = codim ? "p4est_balance_subtree" : "p4est_complete_subtree";
      g.tree = x.tree; g.ctx = ctx; g.live.clear (); g.inits = 0;
      /* take leaves out; for balance the first and the last leaf stay, since a cut through a coarse leaf makes fine leaves that are not meant to be balanced */
      for (size_t z = 0; z < t->quadrants.elem_count; ++z) {
        auto *q = p4est_quadrant_array_index (&t->quadrants, z); Leaf l = leaf_of (q);
        if (k < x.in.size () && x.in[k] == l) { g.live[{ x.tree, l }] = x.in[k].tag; *p4est_quadrant_array_index (&t->quadrants, k) = *q; ++k; }
        else { --t->quadrants_per_level[l.level]; p4est_quadrant_free_data (p, q); }
      }

      sc_array_resize (&t->quadrants, k); int ml = 0; for (auto & l : x.in) ml = std::max (ml, l.level); t->maxlevel = (int8_t) ml;
      if (b.data_size) data_ok (p, x.tree, &t->quadrants, g, "before");
      size_t pool = b.data_size ? p->user_data_pool->elem_count : 0;
      if (!codim) p4est_complete_subtree (p, x.tree, cb ? init_cb : nullptr);
      else if (ext) p4est_balance_subtree_ext (p, btype_of (codim), x.tree, init_cb, replace_cb);
      else p4est_balance_subtree (p, btype_of (codim), x.tree, cb ? init_cb : nullptr);
      L got; for (size_t z = 0; z < t->quadrants.elem_count; ++z) got.push_back (leaf_of (p4est_quadrant_array_index (&t->quadrants, z)));
      counters (t, ctx);
      CHECK (!got.empty () && got[0].key == x.a && got.back ().end () == x.z && m_complete (got), "%s: the result does not fill the part of tree %d", ctx, x.tree);
      if (x.exact) same (got, x.want, ctx);
      else {
        /* at least the completion, at most the part of the balanced whole tree */
        L fine = complete (x.in, x.a, x.z); size_t i = 0, j = 0;
        for (auto & l : got) { while (fine[i].end () <= l.key) ++i; CHECK (fine[i].key <= l.key && l.end () <= fine[i].end (), "%s: leaf %s is coarser than %s", ctx, str (l).c_str (), str (fine[i]).c_str ()); }
        for (auto & l : x.want) { while (got[j].end () <= l.key) ++j; CHECK (got[j].key <= l.key && l.end () <= got[j].end (), "%s: leaf %s is finer than necessary", ctx, str (got[j]).c_str ()); }
        for (size_t m = 0; m < got.size (); ++m) for (size_t n = m + 1; n < got.size (); ++n)
          if (abs (got[m].level - got[n].level) > 1) CHECK (!touch (got[m], got[n], codim), "%s: leaves %s and %s are not balanced", ctx, str (got[m]).c_str (), str (got[n]).c_str ());
        checks (got.size () * got.size () / 2);
      }
      if (b.data_size) CHECK (p->user_data_pool->elem_count - pool == got.size () - x.in.size (), "%s: user data of %lld quadrants allocated, expected %lld", ctx, (long long) p->user_data_pool->elem_count - (long long) pool, (long long) got.size () - (long long) x.in.size ());
      if (cb) {
        data_ok (p, x.tree, &t->quadrants, g, ctx);
        if (ext) CHECK (g.live.size () == got.size (), "%s: %zu leaves are alive according to the callbacks, there are %zu", ctx, g.live.size (), got.size ());
        size_t keptn = 0; std::set<Leaf> s (got.begin (), got.end ()); for (auto & l : x.in) keptn += s.count (l);
        if (!ext) CHECK (g.inits == got.size () - keptn, "%s: init callback called %llu times for %zu new leaves", ctx, (unsigned long long) g.inits, got.size () - keptn);
      }
      else if (b.data_size) for (auto & l : x.in) for (size_t z = 0; z < got.size (); ++z) if (got[z] == l) CHECK (check_bytes (p4est_quadrant_array_index (&t->quadrants, z)->p.user_data, b.data_size, l.tag), "%s: wrong data in the old leaf %s", ctx, str (l).c_str ());
    }
    destroy (p);
  });
  mem_check (mm, "after the subtrees");
}
static void nonowned () {
  label ("mode nonowned");
  Built b; BuildOpts o; o.maxP = 9; o.maxleaves = 150; o.maxtrees = 12; draw_built (b, o);
  int P = b.cfg.P; u64 hs = draw64 (); int dens = pick (std::vector<int> { 5, 30, 80 });
  describe ("%d%% extra; ", dens);
  if (P > 1) nontrivial ();
  MemMark mm = mem_mark ();
  sim::run (b.cfg, [&] (int r) {
    p4est_t *p = build (b);
    for (i64 i = b.cuts[r]; i < b.cuts[r + 1];) {
      int tn = b.leaves[i].tree; i64 j = i; while (j < b.cuts[r + 1] && b.leaves[j].tree == tn) ++j;
      Key a = b.leaves[i].l.key, z = b.leaves[j - 1].l.end ();
      p4est_tree_t *t = p4est_tree_array_index (p->trees, tn);
      std::map<Leaf, p4est_quadrant_t> all;
      for (size_t k = 0; k < t->quadrants.elem_count; ++k) { auto *q = p4est_quadrant_array_index (&t->quadrants, k); all[leaf_of (q)] = *q; }
      i64 o0 = tree_offset (b.forest, tn);
      for (size_t k = 0; k < b.forest.t[tn].size (); ++k) for (int m = 0; m < 2; ++m) {
        u64 h = mix (hs, (u64) (o0 + (i64) k), (u64) m); if ((int) (h % 100) >= dens) continue;
        Leaf l = b.forest.t[tn][k]; h /= 100;
        if (m) { int up = (int) (h % 4); while (up-- > 0 && l.level > 0) l = l.parent (); h /= 4; if (h % 3 == 0 && l.level < QML) l = l.child ((int) (h / 3 % NCH)); }
        if (all.count (l)) continue;
        p4est_quadrant_t q = quad_of (l); p4est_quadrant_init_data (p, tn, &q, nullptr); if (b.data_size) fill_bytes (q.p.user_data, b.data_size, mix (hs, (u64) kh (l.key), (u64) l.level)); all[l] = q;
      }
      L want; for (auto & e : all) if (e.first.key >= a && e.first.end () <= z) want.push_back (e.first);
      sc_array_resize (&t->quadrants, all.size ()); memset (t->quadrants_per_level, 0, sizeof t->quadrants_per_level); size_t k = 0; t->maxlevel = 0;
      for (auto & e : all) { *p4est_quadrant_array_index (&t->quadrants, k++) = e.second; ++t->quadrants_per_level[e.first.level]; t->maxlevel = std::max<int8_t> (t->maxlevel, (int8_t) e.first.level); }
      for (int l = QML + 1; l <= ML; ++l) t->quadrants_per_level[l] = -1;
      size_t pool = b.data_size ? p->user_data_pool->elem_count : 0;
      size_t rem = p4est_tree_remove_nonowned (p, tn);
      L got; for (size_t y = 0; y < t->quadrants.elem_count; ++y) got.push_back (leaf_of (p4est_quadrant_array_index (&t->quadrants, y)));
      same (got, want, "p4est_tree_remove_nonowned");
      CHECK (rem == all.size () - want.size (), "%zu quadrants removed, expected %zu", rem, all.size () - want.size ());
      counters (t, "p4est_tree_remove_nonowned");
      if (b.data_size) {
        CHECK (pool - p->user_data_pool->elem_count == rem, "user data of %zu quadrants freed, expected %zu", pool - p->user_data_pool->elem_count, rem);
        for (size_t y = 0; y < got.size (); ++y) CHECK (p4est_quadrant_array_index (&t->quadrants, y)->p.user_data == all[got[y]].p.user_data, "user data of %s has been replaced", str (got[y]).c_str ());
      }
      i = j;
    }
    destroy (p);
  });
  mem_check (mm, "after removing quadrants");
}
/* a family spread over processes goes to the first process that has most of it */
static void correction () {
  label ("mode correction");
  int P = range (1, 12); i64 base = draw (3) ? 0 : (i64) draw (1ll << 40), lo = base + (i64) draw (6), hi = lo + NCH - 1;
  if (chance (15)) hi = lo + (i64) draw (NCH + 3);
  std::vector<p4est_gloidx_t> c (P + 1); c[0] = base; c[P] = hi + 1 + (i64) draw (6);
  for (int p = 1; p < P; ++p) c[p] = draw (3) ? lo + (i64) draw (hi - lo + 2) : base + (i64) draw (c[P] - base + 1);
  std::sort (c.begin (), c.end ());
  bool family = hi - lo + 1 == NCH;
  int win = -1; i64 most = 0;
  for (int p = 0; p < P; ++p) { i64 n = std::min (hi + 1, c[p + 1]) - std::max (lo, c[p]); if (n > most) { most = n; win = p; } }
  describe ("family %lld..%lld on %d processes; ", (long long) lo, (long long) hi, P);
  int holders = 0;
  for (int p = 0; p < P; ++p) {
    if (c[p] >= c[p + 1] || c[p] < lo || c[p] > hi) continue;
    ++holders;
    i64 want = !family ? 0 : win < p ? c[p] - hi - 1 : c[p] - lo;
    i64 got = p4est_partition_correction (c.data (), P, p, lo, hi);
    CHECK (got == want, "correction of process %d is %lld, expected %lld", p, (long long) got, (long long) want);
  }
  if (holders > 1) nontrivial ();
  std::vector<p4est_locidx_t> n (P); for (auto & x : n) x = draw (3) ? 0 : (p4est_locidx_t) draw (4);
  for (int p = 0; p <= P + 1; ++p) {
    int want = std::min (p, P); while (want < P && n[want] == 0) ++want;
    int got = p4est_next_nonempty_process (p, P, n.data ());
    CHECK (got == want, "next nonempty process from %d is %d, expected %d", p, got, want);
  }
  checks (P + 3);
}
static void boundary () {
  label ("mode boundary");
  Conn c = draw_conn (); nontrivial ();
  int n = range (1, 20); std::vector<std::pair<int, Leaf>> qs; for (int i = 0; i < n; ++i) { int t = (int) draw (c.nt); qs.push_back ({ t, any_leaf () }); }
  sim::run (one (), [&] (int) {
    p4est_connectivity_t *cc = c.make (); p4est_t *p = p4est_new_ext (sc_MPI_COMM_WORLD, cc, 0, 0, 1, 0, nullptr, nullptr);
    for (auto & e : qs) for (int f = 0; f < NF; ++f) {
      Pt x = deinterleave (e.second.key); i64 v = x.x[f / 2];
      bool want = c.fmap[e.first * NF + f].boundary && (f & 1 ? v + qlen (e.second.level) == RL : v == 0);
      p4est_quadrant_t q = quad_of (e.second);
      CHECK (!!p4est_quadrant_on_face_boundary (p, e.first, f, &q) == want, "face %d of %s: on the boundary, expected %d", f, str (e.first, e.second).c_str (), (int) want);
    }
    checks (qs.size () * NF);
    p4est_destroy (p); p4est_connectivity_destroy (cc);
  });
}
void prop () {
  switch (weighted ({ 20, 20, 35, 15, 5, 5 })) {
  case 0: predicates (); break;
  case 1: region (); break;
  case 2: subtree (); break;
  case 3: nonowned (); break;
  case 4: correction (); break;
  case 5: boundary (); break;
  }
}
}
