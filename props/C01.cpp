/* Quadrant algebra against integer boxes and bit interleaving */
#include "harness.h"
namespace DNS {
using namespace eng;
typedef unsigned __int128 W;
struct XQ { i64 x[3] = { 0, 0, 0 }; int level = 0;    /* an extended quadrant: may lie in the ring around the root */
  i64 len () const { return qlen (level); }
  bool operator== (const XQ & o) const { return x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2] && level == o.level; }
};
static W wkey (const i64 * x) {
  W k = 0;
  for (int i = 0; i < 32; ++i) for (int a = 0; a < DIM; ++a) if ((((u64) x[a] & 0xffffffffull) >> i) & 1) k |= (W) 1 << (DIM * i + a);
  return k;
}
static W wkey (const XQ & q) { return wkey (q.x); }
static W wvol (int level) { return (W) 1 << (DIM * (ML - level)); }
static bool inroot (const XQ & q) { for (int a = 0; a < DIM; ++a) if (q.x[a] < 0 || q.x[a] >= RL) return false; return true; }
static bool ext (const XQ & q) { if (q.level < 0 || q.level > QML) return false; for (int a = 0; a < DIM; ++a) if (q.x[a] < -RL || q.x[a] >= 2 * RL || (q.x[a] & (q.len () - 1))) return false; return true; }
static i64 fl (i64 v, i64 h) { return v & ~(h - 1); }
static XQ anc (const XQ & q, int l) { XQ r; r.level = l; for (int a = 0; a < DIM; ++a) r.x[a] = fl (q.x[a], qlen (l)); return r; }
static XQ child (const XQ & q, int c) { XQ r; r.level = q.level + 1; for (int a = 0; a < DIM; ++a) r.x[a] = q.x[a] + ((c >> a) & 1) * qlen (q.level + 1); return r; }
static bool contains (const XQ & a, const XQ & b) { for (int i = 0; i < DIM; ++i) if (b.x[i] < a.x[i] || b.x[i] + b.len () > a.x[i] + a.len ()) return false; return true; }
static bool overlap (const XQ & a, const XQ & b) { for (int i = 0; i < DIM; ++i) if (b.x[i] >= a.x[i] + a.len () || a.x[i] >= b.x[i] + b.len ()) return false; return true; }
static bool samecell (const XQ & a, const XQ & b) { return anc (a, 0) == anc (b, 0); }
static int cmp (const XQ & a, const XQ & b) { W x = wkey (a), y = wkey (b); return x < y ? -1 : x > y ? 1 : a.level - b.level; }
static int sgn (int v) { return v < 0 ? -1 : v > 0; }
static XQ move (const XQ & q, const int *d) { XQ r = q; for (int a = 0; a < DIM; ++a) r.x[a] += d[a] * q.len (); return r; }
static void fdir (int f, int *d) { d[0] = d[1] = d[2] = 0; d[f / 2] = f & 1 ? 1 : -1; }
static void cdir (int c, int *d) { for (int a = 0; a < 3; ++a) d[a] = a < DIM ? ((c >> a) & 1 ? 1 : -1) : 0; }
#if VDIM == 3
static void edir (int e, int *d) { int ax = e / 4, k = 0; for (int a = 0; a < 3; ++a) if (a == ax) d[a] = 0; else { d[a] = (e >> k) & 1 ? 1 : -1; ++k; } }
#endif
static std::string S (const XQ & q) { char b[120]; snprintf (b, 120, "(%lld,%lld,%lld)/%d", (long long) q.x[0], (long long) q.x[1], (long long) q.x[2], q.level); return b; }
static u64 junk = 1;
static p4est_quadrant_t Q (const XQ & q) {
  p4est_quadrant_t r; memset (&r, 0x5a + (int) (junk++ % 7), sizeof r);
  r.x = (p4est_qcoord_t) q.x[0]; r.y = (p4est_qcoord_t) q.x[1]; D3 (r.z = (p4est_qcoord_t) q.x[2];) r.level = (int8_t) q.level;
  return r;
}
static XQ X (const p4est_quadrant_t & q) { XQ r; r.x[0] = q.x; r.x[1] = q.y; D3 (r.x[2] = q.z;) r.level = q.level; return r; }

/* output quadrants must leave the payload of the existing structure alone */
struct Out { p4est_quadrant_t q; int mark; Out () { mark = 0x31 + (int) (junk++ % 50); memset (&q, mark, sizeof q); }
  void eq (const XQ & want, const char *what, const XQ & in) {
    XQ g = X (q);
    CHECK (g == want, "%s of %s is %s, expected %s", what, S (in).c_str (), S (g).c_str (), S (want).c_str ());
    const unsigned char *b = (const unsigned char *) &q.p;
    for (size_t i = 0; i < sizeof q.p; ++i) CHECK (b[i] == mark, "%s of %s modified the user data of the result", what, S (in).c_str ());
    checks ();
  } };
static void is (long got, long want, const char *what, const XQ & a) { CHECK (got == want, "%s (%s) returned %ld, expected %ld", what, S (a).c_str (), got, want); checks (); }
static void is2 (long got, long want, const char *what, const XQ & a, const XQ & b) {
  CHECK (got == want, "%s (%s, %s) returned %ld, expected %ld", what, S (a).c_str (), S (b).c_str (), got, want); checks (); }

static void unary (const XQ & m) {
  p4est_quadrant_t q = Q (m);
  const bool in = inroot (m);
  int nout = 0; for (int a = 0; a < DIM; ++a) nout += m.x[a] < 0 || m.x[a] >= RL;
  is (p4est_quadrant_is_extended (&q), 1, "is_extended", m);
  is (p4est_quadrant_is_inside_3x3 (&q), 1, "is_inside_3x3", m);
  is (p4est_quadrant_is_inside_root (&q), in, "is_inside_root", m);
  is (p4est_quadrant_is_valid (&q), in, "is_valid", m);
  is (p4est_quadrant_is_outside_face (&q), nout == 1, "is_outside_face", m);
  is (p4est_quadrant_is_outside_corner (&q), nout == DIM, "is_outside_corner", m);
#if VDIM == 3
  is (p8est_quadrant_is_outside_edge (&q), nout == 2, "is_outside_edge", m);
  is (p8est_quadrant_is_outside_edge_extra (&q, NULL), nout == 2, "is_outside_edge_extra", m);
  if (nout == 2) {
    bool adj = true; int e = -1, want = -1;
    for (int a = 0; a < 3; ++a) if (m.x[a] < 0 ? m.x[a] != -m.len () : m.x[a] >= RL && m.x[a] != RL) adj = false;
    for (int k = 0; k < 12; ++k) { int d[3]; edir (k, d); bool ok = true; for (int a = 0; a < 3; ++a) ok = ok && (m.x[a] < 0 ? -1 : m.x[a] >= RL) == d[a]; if (ok) want = k; }
    if (adj) { p8est_quadrant_is_outside_edge_extra (&q, &e); is (e, want, "edge number of is_outside_edge_extra", m);
      for (int k = 0; k < 12; ++k) { int d[3]; edir (k, d); int de[3]; edir (want, de); if (d[0] == 0 && m.x[0] >= 0 && m.x[0] < RL ? true : d[1] == 0 && m.x[1] >= 0 && m.x[1] < RL ? true : d[2] == 0 && m.x[2] >= 0 && m.x[2] < RL)
        is (p8est_quadrant_touches_edge (&q, k, 0), k == want, "touches_edge outside", m); } }
  }
#endif
  /* touching the corners of the root from inside or diagonally outside */
  for (int c = 0; c < NCH; ++c) {
    bool ti = true, to = true;
    for (int a = 0; a < DIM; ++a) { int b = (c >> a) & 1; ti = ti && m.x[a] == (b ? RL - m.len () : 0); to = to && m.x[a] == (b ? RL : -m.len ()); }
    if (in) is (p4est_quadrant_touches_corner (&q, c, 1), ti, "touches_corner inside", m);
    is (p4est_quadrant_touches_corner (&q, c, 0), to, "touches_corner outside", m);
    for (int ins = 0; ins < 2; ++ins) {
      Out o; o.q.level = (int8_t) m.level; p4est_quadrant_transform_corner (&o.q, c, ins);
      XQ w; w.level = m.level; for (int a = 0; a < DIM; ++a) { int b = (c >> a) & 1; w.x[a] = ins ? (b ? RL - m.len () : 0) : (b ? RL : -m.len ()); }
      o.eq (w, "transform_corner", m);
    }
  }
#if VDIM == 3
  if (in) for (int e = 0; e < 12; ++e) { int d[3]; edir (e, d); bool t = true; for (int a = 0; a < 3; ++a) if (d[a]) t = t && m.x[a] == (d[a] > 0 ? RL - m.len () : 0); is (p8est_quadrant_touches_edge (&q, e, 1), t, "touches_edge inside", m); }
#endif
  { p4est_quadrant_t c; memset (&c, 0x11, sizeof c); p4est_quadrant_copy (&q, &c); is (p4est_quadrant_is_equal (&c, &q), 1, "copy", m); CHECK (X (c) == m, "copy of %s", S (m).c_str ()); }
  /* child, parent, ancestors, siblings */
  for (int l = 0; l <= m.level; ++l) {
    int id = 0; for (int a = 0; a < DIM && l > 0; ++a) id |= (int) ((m.x[a] >> (ML - l)) & 1) << a;
    is (p4est_quadrant_ancestor_id (&q, l), id, "ancestor_id", m);
    if (l == m.level) is (p4est_quadrant_child_id (&q), id, "child_id", m);
    else { Out o; p4est_quadrant_ancestor (&q, l, &o.q); o.eq (anc (m, l), "ancestor", m);
      p4est_quadrant_t s = q; p4est_quadrant_ancestor (&s, l, &s); CHECK (X (s) == anc (m, l), "ancestor in place of %s", S (m).c_str ()); }
  }
  if (m.level > 0) {
    XQ par = anc (m, m.level - 1);
    { Out o; p4est_quadrant_parent (&q, &o.q); o.eq (par, "parent", m); p4est_quadrant_t s = q; p4est_quadrant_parent (&s, &s); CHECK (X (s) == par, "parent in place of %s", S (m).c_str ()); }
    for (int c = 0; c < NCH; ++c) { Out o; p4est_quadrant_sibling (&q, &o.q, c); o.eq (child (par, c), "sibling", m); }
    /* successor and predecessor within the same root-sized cell */
    W k = wkey (m), cell = wkey (anc (m, 0));
    auto at = [&] (W key) { XQ r; r.level = m.level; for (int a = 0; a < DIM; ++a) { u64 v = 0; for (int i = 0; i < 32; ++i) if ((key >> (DIM * i + a)) & 1) v |= 1ull << i; r.x[a] = (int32_t) (uint32_t) v; } return r; };
    if (k + wvol (m.level) < cell + wvol (0)) { Out o; p4est_quadrant_successor (&q, &o.q); o.eq (at (k + wvol (m.level)), "successor", m);
      Out b; p4est_quadrant_predecessor (&o.q, &b.q); b.eq (m, "predecessor of the successor", m); }
    if (k > cell) { Out o; p4est_quadrant_predecessor (&q, &o.q); o.eq (at (k - wvol (m.level)), "predecessor", m); }
  }
  if (m.level < QML) {
    p4est_quadrant_t c[NCH], *pc[NCH]; p4est_quadrant_t c2[NCH];
    for (int i = 0; i < NCH; ++i) { memset (&c[i], 0x21, sizeof c[i]); memset (&c2[i], 0x22, sizeof c2[i]); pc[i] = &c2[i]; }
    p4est_quadrant_childrenv (&q, c); p4est_quadrant_childrenpv (&q, pc);
    for (int i = 0; i < NCH; ++i) {
      Out o; p4est_quadrant_child (&q, &o.q, i); o.eq (child (m, i), "child", m);
      CHECK (X (c[i]) == child (m, i) && X (c2[i]) == child (m, i), "child %d of %s in an array", i, S (m).c_str ());
      CHECK (memchr (&c[i].p, 0x21, 1), "childrenv modified user data");
      is (p4est_quadrant_is_parent (&q, &c[i]), 1, "is_parent of child", m);
      is (p4est_quadrant_is_parent_D (&q, &c[i]), 1, "is_parent_D of child", m);
    }
    is (p4est_quadrant_is_familyv (c), 1, "is_familyv of children", m);
    is (p4est_quadrant_is_familypv (pc), 1, "is_familypv of children", m);
#if VDIM == 2
    is (p4est_quadrant_is_family (&c[0], &c[1], &c[2], &c[3]), 1, "is_family", m);
    p4est_quadrant_t e[NCH]; p4est_quadrant_children (&q, &e[0], &e[1], &e[2], &e[3]);
#else
    is (p4est_quadrant_is_family (&c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6], &c[7]), 1, "is_family", m);
    p4est_quadrant_t e[NCH]; p4est_quadrant_children (&q, &e[0], &e[1], &e[2], &e[3], &e[4], &e[5], &e[6], &e[7]);
#endif
    for (int i = 0; i < NCH; ++i) CHECK (X (e[i]) == child (m, i), "child %d of %s by children", i, S (m).c_str ());
    /* in place */
    e[0] = q; p4est_quadrant_childrenv (&e[0], e); for (int i = 0; i < NCH; ++i) CHECK (X (e[i]) == child (m, i), "child %d of %s in place", i, S (m).c_str ());
    /* any replacement breaks the family */
    int i = (int) (mix (junk++, (u64) m.x[0]) % NCH), kind = (int) (mix (junk++, (u64) m.x[1]) % 4);
    p4est_quadrant_t save = c[i];
    bool ch = true;
    if (kind == 0) { int j = (i + 1) % NCH; c[i] = c[j]; }
    else if (kind == 1 && m.level + 1 < QML) c[i].level = (int8_t) (m.level + 2);
    else if (kind == 2) { i64 v = (i64) c[i].x + qlen (m.level + 1) * 2; if (v >= 2 * RL) ch = false; else c[i].x = (p4est_qcoord_t) v; }
    else if (kind == 3) { int j = (i + 1) % NCH; save = c[j]; c[j] = c[i]; c[i] = save; }
    else ch = false;
    if (ch) { is (p4est_quadrant_is_familyv (c), 0, "is_familyv of a broken family", m); for (int k = 0; k < NCH; ++k) pc[k] = &c[k]; is (p4est_quadrant_is_familypv (pc), 0, "is_familypv of a broken family", m); }
  }
  /* descendants */
  for (int l : { m.level, (m.level + QML + 1) / 2, (int) QML }) {
    XQ f = m, g = m; f.level = g.level = l; for (int a = 0; a < DIM; ++a) g.x[a] += m.len () - qlen (l);
    { Out o; p4est_quadrant_first_descendant (&q, &o.q, l); o.eq (f, "first_descendant", m); }
    { Out o; p4est_quadrant_last_descendant (&q, &o.q, l); o.eq (g, "last_descendant", m); }
    for (int c = 0; c < NCH; ++c) { XQ w = m; w.level = l; for (int a = 0; a < DIM; ++a) if ((c >> a) & 1) w.x[a] += m.len () - qlen (l); Out o; p4est_quadrant_corner_descendant (&q, &o.q, c, l); o.eq (w, "corner_descendant", m); }
    p4est_quadrant_t a = Q (f), b = Q (g);
    is (p4est_quadrant_is_first_last (&a, &b, &q), 1, "is_first_last of the extreme descendants", m);
    if (l > m.level) {
      is (p4est_quadrant_is_first_last (&b, &b, &q), 0, "is_first_last", m); is (p4est_quadrant_is_first_last (&a, &a, &q), 0, "is_first_last", m);
      /* enlarging within an ancestor: largest box with the same first (last) corner */
      for (int al : { 0, m.level / 2, m.level }) {
        XQ top = anc (m, al); p4est_quadrant_t t = Q (top);
        for (int c = 0; c < NCH; ++c) {
          XQ w = m; w.level = l; for (int k = 0; k < DIM; ++k) if ((c >> k) & 1) w.x[k] += m.len () - qlen (l);
          int bl = l; while (bl > al) { bool ok = true; for (int k = 0; k < DIM; ++k) ok = ok && (w.x[k] & (qlen (bl - 1) - 1)) == 0; if (!ok) break; --bl; }
          { p4est_quadrant_t e = Q (w); p4est_quadrant_enlarge_first (&t, &e); XQ r = w; r.level = bl; CHECK (X (e) == r, "enlarge_first of %s in %s is %s, expected %s", S (w).c_str (), S (top).c_str (), S (X (e)).c_str (), S (r).c_str ()); }
          int el = l; while (el > al) { bool ok = true; for (int k = 0; k < DIM; ++k) ok = ok && ((w.x[k] + w.len ()) & (qlen (el - 1) - 1)) == 0; if (!ok) break; --el; }
          { p4est_quadrant_t e = Q (w); p4est_quadrant_enlarge_last (&t, &e); XQ r = anc (w, el); CHECK (X (e) == r, "enlarge_last of %s in %s is %s, expected %s", S (w).c_str (), S (top).c_str (), S (X (e)).c_str (), S (r).c_str ()); }
          checks (2);
        }
      }
    }
  }
  /* linear positions */
  for (int l = 0; l <= ML; ++l) {
    W id = (wkey (m) >> (DIM * (ML - l)));
    if (l <= P4EST_OLD_MAXLEVEL) { u64 g = p4est_quadrant_linear_id (&q, l); CHECK (g == (u64) id, "linear_id (%s, %d) is %llx, expected %llx", S (m).c_str (), l, (unsigned long long) g, (unsigned long long) id); }
    p4est_lid_t d; p4est_quadrant_linear_id_ext128 (&q, l, &d);
    W dv;
#if VDIM == 3
    dv = (W) d.high_bits << 64 | d.low_bits;
#else
    dv = d;
#endif
    CHECK (dv == id, "linear_id_ext128 (%s, %d) is wrong", S (m).c_str (), l);
    checks (2);
    if (l <= QML) {
      XQ w; w.level = l; for (int a = 0; a < DIM; ++a) w.x[a] = fl (m.x[a], qlen (l));
      { Out o; p4est_quadrant_set_morton_ext128 (&o.q, l, &d); o.eq (w, "set_morton_ext128 of the linear id", m); }
      if (l <= P4EST_OLD_QMAXLEVEL) { Out o; p4est_quadrant_set_morton (&o.q, l, (u64) id); o.eq (w, "set_morton of the linear id", m); }
    }
  }
  { p4est_quadrant_t r1 = Q (m); is ((long) p4est_quadrant_hash_fn (&q, NULL), (long) p4est_quadrant_hash_fn (&r1, NULL), "hash of equal quadrants", m); is (p4est_quadrant_equal_fn (&q, &r1, NULL), 1, "equal_fn", m); }
  if (!in) return;
  /* neighbors; the quadrant must be inside the root */
  for (int f = 0; f < NF; ++f) {
    int d[3]; fdir (f, d);
    { Out o; p4est_quadrant_face_neighbor (&q, f, &o.q); o.eq (move (m, d), "face_neighbor", m); p4est_quadrant_t s = q; p4est_quadrant_face_neighbor (&s, f, &s); CHECK (X (s) == move (m, d), "face_neighbor in place of %s", S (m).c_str ()); }
    p4est_qcoord_t xyz[3] = { 7, 7, 7 }; p4est_quadrant_face_coordinates (&q, f, xyz);
    for (int a = 0; a < DIM; ++a) is (xyz[a], m.x[a] + (a == f / 2 ? (f & 1) * m.len () : m.len () / 2), "face_coordinates", m);
    /* half-size neighbors behind the face in order */
    p4est_quadrant_t n[HALF], nur[HALF], all[HALF + 2];
    std::vector<XQ> hw;
    if (m.level < QML) {
      XQ nb = move (m, d); for (int c = 0; c < NCH; ++c) if (((c >> (f / 2)) & 1) != (f & 1)) hw.push_back (child (nb, c));
      p4est_quadrant_half_face_neighbors (&q, f, n, nur);
      for (int i = 0; i < HALF; ++i) {
        CHECK (X (n[i]) == hw[i], "half_face_neighbors %d of %s across %d is %s, expected %s", i, S (m).c_str (), f, S (X (n[i])).c_str (), S (hw[i]).c_str ());
        XQ u = hw[i]; u.level = QML; for (int a = 0; a < DIM; ++a) u.x[a] += hw[i].len () - qlen (QML);
        CHECK (X (nur[i]) == u, "upper right of half_face_neighbors %d of %s", i, S (m).c_str ()); checks (2);
      }
      p4est_quadrant_t n2[HALF]; p4est_quadrant_half_face_neighbors (&q, f, n2, NULL); for (int i = 0; i < HALF; ++i) CHECK (X (n2[i]) == hw[i], "half_face_neighbors without nur");
    }
    p4est_quadrant_all_face_neighbors (&q, f, all);
    auto isinit = [&] (const p4est_quadrant_t & z) { p4est_quadrant_t e; P4EST_QUADRANT_INIT (&e); return z.level == e.level && z.x == e.x && z.y == e.y; };
    for (int i = 0; i < HALF; ++i) if (m.level < QML) CHECK (X (all[i]) == hw[i], "all_face_neighbors %d of %s", i, S (m).c_str ()); else CHECK (isinit (all[i]), "all_face_neighbors %d of the smallest quadrant %s", i, S (m).c_str ());
    CHECK (X (all[HALF]) == move (m, d), "all_face_neighbors same size of %s across %d", S (m).c_str (), f);
    bool dbl = m.level > 0 && (int) ((m.x[f / 2] >> (ML - m.level)) & 1) == (f & 1);
    if (dbl) CHECK (X (all[HALF + 1]) == move (anc (m, m.level - 1), d), "all_face_neighbors double size of %s across %d", S (m).c_str (), f); else CHECK (isinit (all[HALF + 1]), "all_face_neighbors invents a double size neighbor of %s across %d", S (m).c_str (), f);
    checks (HALF + 2);
  }
#if VDIM == 3
  for (int e = 0; e < 12; ++e) {
    int d[3]; edir (e, d); Out o; p8est_quadrant_edge_neighbor (&q, e, &o.q); o.eq (move (m, d), "edge_neighbor", m);
    p4est_qcoord_t xyz[3]; p8est_quadrant_edge_coordinates (&q, e, xyz);
    for (int a = 0; a < 3; ++a) is (xyz[a], m.x[a] + (d[a] == 0 ? m.len () / 2 : d[a] > 0 ? m.len () : 0), "edge_coordinates", m);
    if (m.level == 0) continue;
    Out s, up, dn; p8est_quadrant_shift_edge (&q, &s.q, &up.q, &dn.q, e);
    for (Out *z : { &s, &up, &dn }) { XQ r = X (z->q); CHECK (ext (r) && inroot (r) && r.level <= m.level, "shift_edge of %s", S (m).c_str ()); is (p8est_quadrant_touches_edge (&z->q, e, 1), 1, "shift_edge result touches the edge", m); }
  }
#endif
  for (int c = 0; c < NCH; ++c) {
    int d[3]; cdir (c, d);
    { Out o; p4est_quadrant_corner_neighbor (&q, c, &o.q); o.eq (move (m, d), "corner_neighbor", m); }
    XQ nd; nd.level = ML; for (int a = 0; a < DIM; ++a) nd.x[a] = m.x[a] + ((c >> a) & 1) * m.len ();
    { Out o; p4est_quadrant_corner_node (&q, c, &o.q); o.eq (nd, "corner_node", m); }
    p4est_qcoord_t xyz[3]; p4est_quadrant_corner_coordinates (&q, c, xyz); for (int a = 0; a < DIM; ++a) is (xyz[a], nd.x[a], "corner_coordinates", m);
    if (m.level < QML) { XQ w = child (move (m, d), (NCH - 1) ^ c); Out o; p4est_quadrant_half_corner_neighbor (&q, c, &o.q); o.eq (w, "half_corner_neighbor", m); }
    if (m.level > 0) { Out o; p4est_quadrant_shift_corner (&q, &o.q, c); XQ r = X (o.q); CHECK (ext (r) && inroot (r) && r.level <= m.level, "shift_corner of %s", S (m).c_str ()); is (p4est_quadrant_touches_corner (&o.q, c, 1), 1, "shift_corner result touches", m); }
    /* the node, clamped and back */
    p4est_quadrant_t n = Q (nd); is (p4est_quadrant_is_node (&n, 0), 1, "is_node", nd);
    for (int k = 0; k < NCH; ++k) { bool t = true; for (int a = 0; a < DIM; ++a) t = t && nd.x[a] == (((k >> a) & 1) ? RL : 0); is (p4est_quadrant_touches_corner (&n, k, 0), t, "touches_corner of a node", nd); }
    Out cl; p4est_node_clamp_inside (&n, &cl.q); XQ cw = nd; for (int a = 0; a < DIM; ++a) if (cw.x[a] == RL) cw.x[a] = RL - 1; cl.eq (cw, "node_clamp_inside", nd);
    is (p4est_quadrant_is_node (&cl.q, 1), 1, "is_node clamped", cw);
    bool isclamped = !(cw == nd); is (p4est_quadrant_is_node (&n, 1), !isclamped, "is_node inside of an unclamped node", nd);
    for (int l : { 0, m.level, m.level / 2, (int) QML }) { XQ w; w.level = l; for (int a = 0; a < DIM; ++a) w.x[a] = fl (cw.x[a], qlen (l)); Out o; p4est_node_to_quadrant (&cl.q, l, &o.q); o.eq (w, "node_to_quadrant", cw); p4est_quadrant_t wq = Q (w); is (p4est_quadrant_contains_node (&wq, &cl.q), 1, "contains_node of the enclosing quadrant", w); }
    bool ct = true; for (int a = 0; a < DIM; ++a) ct = ct && cw.x[a] >= m.x[a] && cw.x[a] < m.x[a] + m.len (); is (p4est_quadrant_contains_node (&q, &cl.q), ct, "contains_node", m);
    p4est_quadrant_t un = cl.q; p4est_node_unclamp (&un); CHECK (X (un) == nd, "unclamping %s", S (cw).c_str ());
  }
  { p4est_qcoord_t xyz[3]; p4est_quadrant_volume_coordinates (&q, xyz); for (int a = 0; a < DIM; ++a) is (xyz[a], m.x[a] + m.len () / 2, "volume_coordinates", m); is (p4est_coordinates_is_inside_root (xyz), 1, "coordinates_is_inside_root", m); }
}

static void binary (const XQ & m, const XQ & n) {
  p4est_quadrant_t q = Q (m), r = Q (n);
  bool eq = m == n, ov = overlap (m, n), cell = samecell (m, n);
  is2 (p4est_quadrant_is_equal (&q, &r), eq, "is_equal", m, n);
  is2 (!!p4est_quadrant_equal_fn (&q, &r, NULL), eq, "equal_fn", m, n);
  is2 (sgn (p4est_quadrant_compare (&q, &r)), sgn (cmp (m, n)), "compare", m, n);
  is2 (sgn (p4est_quadrant_disjoint (&q, &r)), ov ? 0 : sgn (cmp (m, n)), "disjoint", m, n);
  is2 (p4est_quadrant_overlaps (&q, &r), ov, "overlaps", m, n);
  if (inroot (m) && inroot (n)) {         /* generators seeded by position */
    sc_rand_state_t s0 = (sc_rand_state_t) -1, s1 = 5, s2 = 77; p4est_quadrant_t q2 = Q (m);
    p4est_quadrant_srand (&q, &s0); p4est_quadrant_srand (&q2, &s1); p4est_quadrant_srand (&r, &s2);
    CHECK (s0 == s1, "two generators for the quadrant %s differ", S (m).c_str ());
    int old = VDIM == 2 ? QML : 18;
    if (m.level <= old && n.level <= old) CHECK ((s0 == s2) == (wkey (m) == wkey (n)), "the generators for %s and %s are %s", S (m).c_str (), S (n).c_str (), s0 == s2 ? "equal" : "different");
  }
  q.p.which_tree = 3; r.p.which_tree = 3;
  is2 (p4est_quadrant_is_equal_piggy (&q, &r), eq, "is_equal_piggy", m, n);
  is2 (sgn (p4est_quadrant_compare_piggy (&q, &r)), sgn (cmp (m, n)), "compare_piggy", m, n);
  r.p.which_tree = 5;
  is2 (p4est_quadrant_is_equal_piggy (&q, &r), 0, "is_equal_piggy in different trees", m, n);
  is2 (sgn (p4est_quadrant_compare_piggy (&q, &r)), -1, "compare_piggy in different trees", m, n);
  is2 (sgn (p4est_quadrant_compare_piggy (&r, &q)), 1, "compare_piggy in different trees", n, m);
  q.p.piggy3.local_num = (p4est_locidx_t) m.level; r.p.piggy3.local_num = (p4est_locidx_t) n.level;
  is2 (sgn (p4est_quadrant_compare_local_num (&q, &r)), sgn (m.level - n.level), "compare_local_num", m, n);
  bool anc1 = m.level < n.level && contains (m, n), par = m.level + 1 == n.level && contains (m, n);
  bool sib = !eq && m.level == n.level && m.level > 0 && anc (m, m.level - 1) == anc (n, n.level - 1);
  is2 (p4est_quadrant_is_ancestor (&q, &r), anc1, "is_ancestor", m, n);
  is2 (p4est_quadrant_is_parent (&q, &r), par, "is_parent", m, n);
  is2 (p4est_quadrant_is_sibling (&q, &r), sib, "is_sibling", m, n);
  bool next = cell && wkey (m) + wvol (m.level) == wkey (n);
  if (cell) {
    is2 (p4est_quadrant_is_next (&q, &r), next, "is_next", m, n);
    is2 (p4est_quadrant_is_next_D (&q, &r), next, "is_next_D", m, n);
    is2 (p4est_quadrant_is_ancestor_D (&q, &r), anc1, "is_ancestor_D", m, n);
    is2 (p4est_quadrant_is_parent_D (&q, &r), par, "is_parent_D", m, n);
    if (m.level && n.level) is2 (p4est_quadrant_is_sibling_D (&q, &r), sib, "is_sibling_D", m, n);
    int l = std::min (m.level, n.level); while (!(anc (m, l) == anc (n, l))) --l;
    { Out o; p4est_nearest_common_ancestor (&q, &r, &o.q); o.eq (anc (m, l), "nearest_common_ancestor", m); }
    { Out o; p4est_nearest_common_ancestor_D (&q, &r, &o.q); o.eq (anc (m, l), "nearest_common_ancestor_D", m); }
    { p4est_quadrant_t s = q; p4est_nearest_common_ancestor (&s, &r, &s); CHECK (X (s) == anc (m, l), "nearest_common_ancestor in place"); }
  }
  /* coordinates alone */
  p4est_qcoord_t a[3], b[3]; for (int i = 0; i < DIM; ++i) { a[i] = (p4est_qcoord_t) m.x[i]; b[i] = (p4est_qcoord_t) n.x[i]; }
  W ka = wkey (m), kb = wkey (n);
  is2 (sgn (p4est_coordinates_compare (a, b)), ka < kb ? -1 : ka > kb, "coordinates_compare", m, n);
  /* same order as the linear position at the same level */
  if (m.level == n.level) is2 (sgn (cmp (m, n)), (ka >> (DIM * (ML - m.level))) < (kb >> (DIM * (ML - m.level))) ? -1 : ka > kb, "order by linear id", m, n);
  if (anc1 && inroot (m)) {
    for (int f = 0; f < NF; ++f) { bool t = f & 1 ? m.x[f / 2] + m.len () == n.x[f / 2] + n.len () : m.x[f / 2] == n.x[f / 2]; is2 (p4est_quadrant_is_ancestor_face (&r, &q, f), t, "is_ancestor_face", n, m); }
    for (int c = 0; c < NCH; ++c) { bool t = true; for (int i = 0; i < DIM; ++i) t = t && ((c >> i) & 1 ? m.x[i] + m.len () == n.x[i] + n.len () : m.x[i] == n.x[i]); is2 (p4est_quadrant_is_ancestor_corner (&r, &q, c), t, "is_ancestor_corner", n, m); }
  }
}
static void ternary (const XQ & m, XQ a, XQ b) {
  /* a tree that holds the range from a to the end of b */
  if (!inroot (a) || !inroot (b)) return;
  if (wkey (b) < wkey (a)) std::swap (a, b);
  { /* a range of the finest quadrants; what lies outside of the tree is in none of them */
    XQ f = a, l = b; f.level = l.level = QML; for (int i = 0; i < DIM; ++i) l.x[i] += b.len () - l.len ();
    p4est_quadrant_t q = Q (m), fd = Q (f), ld = Q (l); W ks = wkey (m), ke = ks + wvol (m.level);
    is (p4est_quadrant_in_range (&fd, &ld, &q), inroot (m) && ks >= wkey (f) && ke <= wkey (l) + wvol (QML), "in_range", m);
  }
  if (!inroot (m)) return;
  p4est_tree_t t; memset (&t, 0, sizeof t);
  sc_array_init (&t.quadrants, sizeof (p4est_quadrant_t));
  p4est_quadrant_t q = Q (m);
  is (p4est_quadrant_overlaps_tree (&t, &q), 0, "overlaps_tree of an empty tree", m); is (p4est_quadrant_is_inside_tree (&t, &q), 0, "is_inside_tree of an empty tree", m);
  *(p4est_quadrant_t *) sc_array_push (&t.quadrants) = Q (a); 
  XQ f = a, l = b; f.level = l.level = QML; for (int i = 0; i < DIM; ++i) l.x[i] += b.len () - l.len ();
  t.first_desc = Q (f); t.last_desc = Q (l);
  W ks = wkey (m), ke = ks + wvol (m.level), ts = wkey (a), te = wkey (b) + wvol (b.level);
  if (ts < te) {
    is (p4est_quadrant_overlaps_tree (&t, &q), ks < te && ke > ts, "overlaps_tree", m);
    is (p4est_quadrant_is_inside_tree (&t, &q), ks >= ts && ke <= te, "is_inside_tree", m);
  }
  sc_array_reset (&t.quadrants);
}
/* positions that may be anything: only the range and alignment tests */
static void wild () {
  for (int k = 0; k < 4; ++k) {
    XQ m; m.level = range (0, ML);
    for (int a = 0; a < DIM; ++a) { i64 base[] = { 0, RL, -RL, 2 * RL - 1, RL - 1, -1, RL + 1 }; m.x[a] = base[draw (7)]; if (chance (60)) m.x[a] += (i64) (draw64 () % (u64) RL) - RL / 2; if (chance (50)) m.x[a] = fl (m.x[a], qlen (range (0, ML))); if (m.x[a] > INT32_MAX) m.x[a] = INT32_MAX; if (m.x[a] < INT32_MIN) m.x[a] = INT32_MIN; }
    p4est_quadrant_t q = Q (m);
    bool al = true, in = true, c33 = true, inb = true, grid = true, nd = m.level == ML, ndc = m.level == ML;
    for (int a = 0; a < DIM; ++a) {
      al = al && (m.x[a] & (m.len () - 1)) == 0; in = in && m.x[a] >= 0 && m.x[a] < RL; c33 = c33 && m.x[a] >= -RL && m.x[a] < 2 * RL; inb = inb && m.x[a] >= 0 && m.x[a] <= RL;
      bool g = (m.x[a] & (qlen (QML) - 1)) == 0; grid = grid && g;
      nd = nd && g && m.x[a] >= 0 && m.x[a] <= RL; ndc = ndc && ((g && m.x[a] >= 0 && m.x[a] < RL) || m.x[a] == RL - 1);
    }
    p4est_qcoord_t xyz[3] = { q.x, q.y, 0 }; D3 (xyz[2] = q.z;)
    is (p4est_quadrant_is_inside_root (&q), in, "is_inside_root", m); is (p4est_quadrant_is_inside_3x3 (&q), c33, "is_inside_3x3", m);
    is (p4est_coordinates_is_inside_root (xyz), inb, "coordinates_is_inside_root", m); is (p4est_coordinates_is_valid (xyz, m.level), inb && al, "coordinates_is_valid", m);
    is (p4est_quadrant_is_node (&q, 0), nd, "is_node", m); is (p4est_quadrant_is_node (&q, 1), ndc, "is_node clamped", m);
    is (p4est_quadrant_is_valid (&q), m.level <= QML && in && al, "is_valid", m); is (p4est_quadrant_is_extended (&q), m.level <= QML && c33 && al, "is_extended", m);
    q.level = -1; is (p4est_quadrant_is_valid (&q), 0, "is_valid with negative level", m); is (p4est_quadrant_is_extended (&q), 0, "is_extended with negative level", m);
  }
}
/* nodes of trees, and lists of numbers */
static void nodes () {
  for (int k = 0; k < 3; ++k) {
    int clamped = (int) draw (2); XQ m[2]; p4est_topidx_t t[2];
    for (int i = 0; i < 2; ++i) { m[i].level = ML; t[i] = (p4est_topidx_t) draw (3); for (int a = 0; a < DIM; ++a) { i64 v = qlen (QML) * (i64) (draw (2) ? draw (3) : draw64 () % ((u64) RL / qlen (QML) + 1)); if (chance (20)) v = RL; m[i].x[a] = clamped && v == RL ? RL - 1 : v; } }
    if (chance (60)) { m[1] = m[0]; t[1] = t[0]; if (chance (60)) { int a = (int) draw (DIM + 1); if (a == DIM) t[1]++; else m[1].x[a] = m[1].x[a] ? 0 : qlen (QML); } }
    p4est_quadrant_t q = Q (m[0]), r = Q (m[1]), q2 = Q (m[0]); q.p.which_tree = q2.p.which_tree = t[0]; r.p.which_tree = t[1]; bool eq = m[0] == m[1] && t[0] == t[1];
    is2 (!!p4est_node_equal_piggy_fn (&q, &r, &clamped), eq, "node_equal_piggy_fn", m[0], m[1]);
    unsigned h = p4est_node_hash_piggy_fn (&q, &clamped); is2 (h == p4est_node_hash_piggy_fn (&q2, &clamped), 1, "node_hash_piggy_fn of equal nodes", m[0], m[0]);
    if (eq) is2 (h == p4est_node_hash_piggy_fn (&r, &clamped), 1, "node_hash_piggy_fn of equal nodes", m[0], m[1]);
    Out o; p4est_quadrant_root (&o.q); o.eq (XQ (), "quadrant_root", m[0]);
    std::vector<p4est_topidx_t> v (draw (7)), w; for (auto & x : v) x = (p4est_topidx_t) draw (5) - (p4est_topidx_t) draw (2) * 7; w = v; std::sort (w.begin (), w.end ());
    int sorted = p4est_topidx_is_sorted (v.data (), (int) v.size ()); CHECK (!sorted == !(v == w), "topidx_is_sorted is %d", sorted);
    p4est_topidx_bsort (v.data (), (int) v.size ()); CHECK (v == w, "topidx_bsort does not sort");
  }
}
/* arithmetic of linear positions */
static void lids () {
  for (int k = 0; k < 6; ++k) {
    u64 h[2] = { draw64 (), draw64 () }, l[2] = { draw64 (), draw64 () };
    for (int i = 0; i < 2; ++i) { int m = (int) draw (5); if (m == 1) l[i] = ~0ull; if (m == 2) h[i] = ~0ull; if (m == 3) { h[1] = h[0]; } if (m == 4) { l[1] = l[0]; h[1] = h[0]; } }
    p4est_lid_t a, b, r; memset (&r, 0x77, sizeof r);
#if VDIM == 3
    const int BITS = 128; W x = (W) h[0] << 64 | l[0], y = (W) h[1] << 64 | l[1];
    auto val = [] (const p4est_lid_t & z) { return (W) z.high_bits << 64 | z.low_bits; };
#else
    const int BITS = 64; u64 x = l[0], y = l[1]; h[0] = h[1] = 0;
    auto val = [] (const p4est_lid_t & z) { return (u64) z; };
#endif
    typedef decltype (x) N;
    p4est_lid_init (&a, h[0], l[0]); p4est_lid_init (&b, h[1], l[1]);
    CHECK (val (a) == x && val (b) == y, "lid_init");
    CHECK (sgn (p4est_lid_compare (&a, &b)) == (x < y ? -1 : x > y), "lid_compare %016llx%016llx %016llx%016llx", (unsigned long long) h[0], (unsigned long long) l[0], (unsigned long long) h[1], (unsigned long long) l[1]);
    CHECK (!!p4est_lid_is_equal (&a, &b) == (x == y), "lid_is_equal");
    p4est_lid_set_zero (&r); CHECK (val (r) == 0, "lid_set_zero"); p4est_lid_set_one (&r); CHECK (val (r) == 1, "lid_set_one"); p4est_lid_set_uint64 (&r, l[0]); CHECK (val (r) == l[0], "lid_set_uint64");
    p4est_lid_copy (&a, &r); CHECK (val (r) == x, "lid_copy");
    p4est_lid_add (&a, &b, &r); CHECK (val (r) == (N) (x + y), "lid_add %016llx%016llx + %016llx%016llx", (unsigned long long) h[0], (unsigned long long) l[0], (unsigned long long) h[1], (unsigned long long) l[1]);
    if (x >= y) { p4est_lid_sub (&a, &b, &r); CHECK (val (r) == (N) (x - y), "lid_sub"); p4est_lid_copy (&a, &r); p4est_lid_sub_inplace (&r, &b); CHECK (val (r) == (N) (x - y), "lid_sub_inplace"); }
    p4est_lid_bitwise_neg (&a, &r); CHECK (val (r) == (N) ~x, "lid_bitwise_neg");
    p4est_lid_bitwise_or (&a, &b, &r); CHECK (val (r) == (x | y), "lid_bitwise_or"); p4est_lid_bitwise_and (&a, &b, &r); CHECK (val (r) == (x & y), "lid_bitwise_and");
    p4est_lid_copy (&a, &r); p4est_lid_add_inplace (&r, &b); CHECK (val (r) == (N) (x + y), "lid_add_inplace");
    p4est_lid_copy (&a, &r); p4est_lid_bitwise_or_inplace (&r, &b); CHECK (val (r) == (x | y), "lid_bitwise_or_inplace");
    p4est_lid_copy (&a, &r); p4est_lid_bitwise_and_inplace (&r, &b); CHECK (val (r) == (x & y), "lid_bitwise_and_inplace");
    int s = range (0, BITS - 1);
    p4est_lid_shift_right (&a, s, &r); CHECK (val (r) == (N) (x >> s), "lid_shift_right by %d", s); p4est_lid_shift_left (&a, s, &r); CHECK (val (r) == (N) (x << s), "lid_shift_left by %d", s);
    CHECK (!!p4est_lid_chk_bit (&a, s) == (bool) ((x >> s) & 1), "lid_chk_bit %d", s);
    p4est_lid_copy (&a, &r); p4est_lid_set_bit (&r, s); CHECK (val (r) == (N) (x | (N) 1 << s), "lid_set_bit %d", s);
    checks (20);
  }
}
static XQ draw_q () {
  XQ q; q.level = chance (30) ? range (0, 3) : chance (20) ? QML - range (0, 2) : range (0, QML);
  for (int a = 0; a < DIM; ++a) {
    u64 v = 0; int mode = (int) draw (5);
    if (mode == 0) v = draw64 (); else if (mode == 1) v = 0; else if (mode == 2) v = (u64) RL - 1; else if (mode == 3) v = (u64) RL / 2 - draw (2); else v = draw (2) ? 0x2aaaaaaaull : 0x15555555ull;
    q.x[a] = fl ((i64) (v % (u64) RL), q.len ());
  }
  if (chance (25)) for (int a = 0; a < DIM; ++a) q.x[a] += RL * (range (0, 2) - 1);
  return q;
}
static XQ derive (const XQ & q, int *kind) {
  XQ r = q; int d[3];
  *kind = (int) draw (9);
  switch (*kind) {
  case 0: r = anc (q, range (0, q.level)); break;
  case 1: while (r.level < QML && chance (75)) r = child (r, (int) draw (NCH)); break;
  case 2: if (q.level) r = child (anc (q, q.level - 1), (int) draw (NCH)); break;
  case 3: memcpy (d, direction ((int) draw (NDIR)), sizeof d); r = move (q, d); break;
  case 4: case 5: { /* starts at the end of the first one or a little later, at any level that fits */
    W k = wkey (q) + wvol (q.level); if (k >= wkey (anc (q, 0)) + wvol (0)) break;
    for (int a = 0; a < DIM; ++a) { u64 v = 0; for (int i = 0; i < 32; ++i) if ((k >> (DIM * i + a)) & 1) v |= 1ull << i; r.x[a] = (int32_t) (uint32_t) v; }
    while (r.level > 0 && chance (50)) { XQ s = anc (r, r.level - 1); if (wkey (s) != wkey (r)) break; r = s; }
    while (r.level < QML && chance (40)) r = child (r, *kind == 5 && chance (30) ? (int) draw (NCH) : 0);
    break; }
  case 6: r.level = range (0, QML); for (int a = 0; a < DIM; ++a) r.x[a] = fl (r.x[a], r.len ()); break;
  case 7: { int a = (int) draw (DIM); i64 s = qlen (range (0, q.level)); r.x[a] ^= s; break; }
  default: r = draw_q ();
  }
  if (!ext (r)) r = q;
  return r;
}
void prop () {
  MemMark mm = mem_mark ();
  junk = 1;
  std::vector<XQ> qs; std::vector<int> kinds; bool rel = false;
  qs.push_back (draw_q ());
  for (int i = 0; i < (thorough () ? 8 : 5); ++i) { int k; qs.push_back (derive (qs[draw (qs.size ())], &k)); if (!(qs.back () == qs[0])) rel = true; label ("kind%d", k); }
  std::string t; for (auto & q : qs) t += " " + S (q);
  describe ("%dD quadrants%s", DIM, t.c_str ());
  if (rel) nontrivial ();
  for (auto & q : qs) unary (q);
  for (auto & a : qs) for (auto & b : qs) binary (a, b);
  for (auto & a : qs) for (auto & b : qs) for (auto & c : qs) ternary (a, b, c);
  wild (); nodes (); lids ();
  mem_check (mm, "after all relations");
}
}
