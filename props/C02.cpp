/* Neighbors across tree faces, edges and corners, transforms, canonical points and static tables
   against the affine gluing maps of the model */
#include "topo.h"
namespace DNS {
using namespace eng;
typedef p4est_quadrant_t Q;
static Pt opposite (Pt p, const int *d, i64 h) { for (int a = 0; a < DIM; ++a) p.x[a] += d[a] * h; return p; }
static bool inside (const Pt & p) { return outside_mask (p) == 0; }
static bool same (const Q & q, const Pt & p, int level) { return raw_pt (&q) == p && q.level == level; }

static void tables () {
  for (int cd = 1; cd <= DIM; ++cd) { static const char *const nm[] = { "FACE", "EDGE", "CORNER" }; const char *w = nm[cd == DIM ? 2 : cd - 1];
    CHECK (p4est_connect_type_int (btype_of (cd)) == cd, "the number of connection type %d is %d", cd, p4est_connect_type_int (btype_of (cd)));
    CHECK (!strcmp (p4est_connect_type_string (btype_of (cd)), w), "the name of connection type %d is %s", cd, p4est_connect_type_string (btype_of (cd))); }
  static bool done = false;
  if (done) return;
  done = true;
  CHECK (P4EST_INSUL == (DIM == 3 ? 27 : 9), "P4EST_INSUL is %d", P4EST_INSUL);
  auto point = [] (const Pt & p) { int r = 0; for (int a = DIM - 1; a >= 0; --a) r = 3 * r + (int) p.x[a]; return r; };
  /* boundary points: each coordinate 0 low, 1 middle, 2 high */
  for (int f = 0; f < NF; ++f) {
    Pt p; for (int a = 0; a < DIM; ++a) p.x[a] = a == f / 2 ? 2 * (f & 1) : 1;
    CHECK (p4est_face_points[f] == point (p), "face_points[%d] = %d", f, p4est_face_points[f]);
    CHECK (p4est_face_dual[f] == (f ^ 1), "face_dual[%d] = %d", f, p4est_face_dual[f]);
    for (int i = 0; i < HALF; ++i) CHECK (p4est_face_corners[f][i] == face_corner (f, i), "face_corners[%d][%d] = %d", f, i, p4est_face_corners[f][i]);
  }
  CHECK (p4est_volume_point == (P4EST_INSUL - 1) / 2, "volume_point = %d", p4est_volume_point);
  for (int c = 0; c < NCH; ++c) {
    Pt p; for (int a = 0; a < DIM; ++a) p.x[a] = 2 * ((c >> a) & 1);
    CHECK (p4est_corner_points[c] == point (p), "corner_points[%d] = %d", c, p4est_corner_points[c]);
    int k = 0;
    for (int f = 0; f < NF; ++f) {
      int fc = -1;
      for (int i = 0; i < HALF; ++i) if (face_corner (f, i) == c) fc = i;
      CHECK (p4est_corner_face_corners[c][f] == fc, "corner_face_corners[%d][%d] = %d", c, f, p4est_corner_face_corners[c][f]);
      if (fc >= 0) { CHECK (k < DIM && p4est_corner_faces[c][k] == f, "corner_faces[%d][%d] = %d", c, k, p4est_corner_faces[c][k]); ++k; }
    }
    for (int o = 0; o < NCH; ++o) {
      /* corner o of child c, in half units of the parent */
      int n = 0, f = -1, ax = -1, b = 0, m = 0;
      for (int a = 0; a < DIM; ++a) { int x = ((c >> a) & 1) + ((o >> a) & 1); if (x != 1) { ++n; f = 2 * a + x / 2; } }
      CHECK (p4est_child_corner_faces[c][o] == (n == 1 ? f : -1), "child_corner_faces[%d][%d] = %d", c, o, p4est_child_corner_faces[c][o]);
      for (int a = 0; a < DIM; ++a) { int x = ((c >> a) & 1) + ((o >> a) & 1); if (x == 1) ax = a; else b |= (x / 2) << m++; }
      (void) ax;
      D3 (CHECK (p8est_child_corner_edges[c][o] == (n == 2 ? 4 * ax + b : -1), "child_corner_edges[%d][%d] = %d", c, o, p8est_child_corner_edges[c][o]);)
    }
  }
#if VDIM == 3
  for (int e = 0; e < 12; ++e) {
    int ax = e / 4, k = 0;
    Pt p; for (int a = 0; a < 3; ++a) p.x[a] = a == ax ? 1 : 2 * ((e % 4 >> k++) & 1);
    CHECK (p8est_edge_points[e] == point (p), "edge_points[%d] = %d", e, p8est_edge_points[e]);
    for (int i = 0; i < 2; ++i) CHECK (p8est_edge_corners[e][i] == edge_corner (e, i), "edge_corners[%d][%d] = %d", e, i, p8est_edge_corners[e][i]);
    for (int c = 0; c < 8; ++c) {
      int ec = c == edge_corner (e, 0) ? 0 : c == edge_corner (e, 1) ? 1 : -1;
      CHECK (p8est_edge_edge_corners[e][c] == ec, "edge_edge_corners[%d][%d] = %d", e, c, p8est_edge_edge_corners[e][c]);
      CHECK (p8est_corner_edge_corners[c][e] == ec, "corner_edge_corners[%d][%d] = %d", c, e, p8est_corner_edge_corners[c][e]);
      bool has = false; for (int i = 0; i < 3; ++i) has |= p8est_corner_edges[c][i] == e;
      CHECK (has == (ec >= 0), "corner_edges[%d] and edge %d", c, e);
      CHECK (p8est_corner_edges[c][0] / 4 == 0 && p8est_corner_edges[c][1] / 4 == 1 && p8est_corner_edges[c][2] / 4 == 2, "corner_edges[%d]", c);
      /* edge e of child c */
      int n = 0, f = -1, kk = 0;
      for (int a = 0; a < 3; ++a) if (a != ax) { int x = ((c >> a) & 1) + ((e % 4 >> kk++) & 1); if (x != 1) { ++n; f = 2 * a + x / 2; } }
      CHECK (p8est_child_edge_faces[c][e] == (n == 1 ? f : -1), "child_edge_faces[%d][%d] = %d", c, e, p8est_child_edge_faces[c][e]);
    }
    k = 0;
    for (int f = 0; f < 6; ++f) {
      bool on = face_has_corner (f, edge_corner (e, 0)) && face_has_corner (f, edge_corner (e, 1));
      if (on) { CHECK (k < 2 && p8est_edge_faces[e][k] == f, "edge_faces[%d][%d] = %d", e, k, p8est_edge_faces[e][k]); ++k; }
      int fe = -1;
      for (int i = 0; i < 4; ++i) if (p8est_face_edges[f][i] == e) fe = i;
      CHECK ((fe >= 0) == on && p8est_edge_face_edges[e][f] == fe, "edge_face_edges[%d][%d] = %d", e, f, p8est_edge_face_edges[e][f]);
      for (int i = 0; i < 2; ++i) {
        int fc = -1;
        for (int j = 0; j < 4; ++j) if (on && face_corner (f, j) == edge_corner (e, i)) fc = j;
        CHECK (p8est_edge_face_corners[e][f][i] == fc, "edge_face_corners[%d][%d][%d] = %d", e, f, i, p8est_edge_face_corners[e][f][i]);
      }
    }
  }
  for (int f = 0; f < 6; ++f) for (int i = 0; i < 3; ++i) CHECK (p8est_face_edges[f][i] < p8est_face_edges[f][i + 1], "face_edges[%d] not ascending", f);
#endif
  /* crossing any face with any orientation */
  for (int f = 0; f < NF; ++f) for (int nf = 0; nf < NF; ++nf) for (int o = 0; o < HALF; ++o) {
    FaceMap m = make_face_map (f, nf + NF * o);
    auto map = [&] (const Pt & p) { Pt r; for (int a = 0; a < DIM; ++a) r.x[m.axis[a]] = m.sign[a] * p.x[a] + m.off[a]; return r; };
    for (int i = 0; i < HALF; ++i) {
      int c = face_corner (f, i), want = corner_at (map (corner_pt (c)));
      CHECK (p4est_connectivity_face_neighbor_corner (c, f, nf, o) == want, "face_neighbor_corner (%d, %d, %d, %d) = %d, expected %d", c, f, nf, o, p4est_connectivity_face_neighbor_corner (c, f, nf, o), want);
      CHECK (p4est_connectivity_face_neighbor_face_corner (i, f, nf, o) == p4est_corner_face_corners[want][nf], "face_neighbor_face_corner (%d, %d, %d, %d)", i, f, nf, o);
#if VDIM == 3
      int set = p8est_face_permutation_sets[p8est_face_permutation_refs[f][nf]][o];
      CHECK (p8est_connectivity_face_neighbor_corner_set (c, f, nf, set) == want, "face_neighbor_corner_set (%d, %d, %d, %d)", c, f, nf, set);
      int e = p8est_face_edges[f][i];
      int we = edge_from_corners (corner_at (map (corner_pt (edge_corner (e, 0)))), corner_at (map (corner_pt (edge_corner (e, 1)))));
      CHECK (p8est_connectivity_face_neighbor_edge (e, f, nf, o) == we, "face_neighbor_edge (%d, %d, %d, %d) = %d, expected %d", e, f, nf, o, p8est_connectivity_face_neighbor_edge (e, f, nf, o), we);
      CHECK (p8est_connectivity_face_neighbor_face_edge (i, f, nf, o) == p8est_edge_face_edges[we][nf], "face_neighbor_face_edge (%d, %d, %d, %d)", i, f, nf, o);
#endif
    }
    int ft[9];
    p4est_expand_face_transform (f, nf + NF * o, ft);
    for (int a = 0; a < DIM; ++a) {
      Q q = raw_quad (Pt (), ML), r; i64 s = 6; q.level = QML;
      Pt p; for (int b = 0; b < DIM; ++b) p.x[b] = 2 * (1 + b); p.x[a] = 8; p.x[f / 2] = f & 1 ? RL : -2; q = raw_quad (p, QML); r = raw_quad (Pt (), 0);
      p4est_quadrant_transform_face (&q, &r, ft);
      Pt w; for (int b = 0; b < DIM; ++b) w.x[m.axis[b]] = m.sign[b] * p.x[b] + m.off[b] - (m.sign[b] < 0 ? 2 : 0);
      (void) s;
      CHECK (same (r, w, QML), "expand_face_transform (%d, %d): box %s goes to %s, expected %s", f, nf + NF * o, str (p).c_str (), str (raw_pt (&r)).c_str (), str (w).c_str ());
    }
  }
#if VDIM == 3
  for (int ec = 0; ec < 2; ++ec) for (int o = 0; o < 2; ++o) CHECK (p8est_connectivity_edge_neighbor_edge_corner (ec, o) == (ec ^ o), "edge_neighbor_edge_corner (%d, %d)", ec, o);
  for (int e = 0; e < 12; ++e) for (int ne = 0; ne < 12; ++ne) for (int o = 0; o < 2; ++o) for (int i = 0; i < 2; ++i)
    CHECK (p8est_connectivity_edge_neighbor_corner (edge_corner (e, i), e, ne, o) == edge_corner (ne, i ^ o), "edge_neighbor_corner (%d, %d, %d, %d)", edge_corner (e, i), e, ne, o);
#endif
}

struct Rec { int tree; Pt p; int code; bool operator< (const Rec & o) const { return tree != o.tree ? tree < o.tree : p < o.p ? true : o.p < p ? false : code < o.code; }
  bool operator== (const Rec & o) const { return tree == o.tree && p == o.p && code == o.code; } };
static std::string list (const std::vector<Rec> & v) { std::string s; for (auto & r : v) s += " t" + std::to_string (r.tree) + str (r.p) + "/" + std::to_string (r.code); return s.empty () ? " nothing" : s; }

struct Arrays { sc_array_t q, t, n; Arrays () { sc_array_init (&q, sizeof (Q)); sc_array_init (&t, sizeof (p4est_topidx_t)); sc_array_init (&n, sizeof (int)); }
  ~Arrays () { sc_array_reset (&q); sc_array_reset (&t); sc_array_reset (&n); }
  std::vector<Rec> get (int level, const char *what) {
    CHECK (q.elem_count == t.elem_count && t.elem_count == n.elem_count, "%s: %zu quadrants, %zu trees, %zu codes", what, q.elem_count, t.elem_count, n.elem_count);
    std::vector<Rec> r;
    for (size_t i = 0; i < q.elem_count; ++i) {
      Q *x = (Q *) sc_array_index (&q, i);
      CHECK (x->level == level, "%s: neighbor of level %d", what, x->level);
      r.push_back ({ (int) *(p4est_topidx_t *) sc_array_index (&t, i), raw_pt (x), *(int *) sc_array_index (&n, i) });
    }
    std::sort (r.begin (), r.end ());
    return r;
  } };

static void prop_body ();
void prop () { MemMark mm = mem_mark (); prop_body (); mem_check (mm, "after all queries"); }
static void prop_body () {
  tables ();
  Conn conn = draw_conn (64);
  p4est_connectivity_t *c = conn.make ();
  describe ("%s, %d trees; ", conn.name.c_str (), conn.nt);
  int nq = range (1, 6);
  bool crossed = false;
  u64 n = 0;
  for (int iq = 0; iq < nq; ++iq) {
    int t = (int) draw (conn.nt), level = weighted ({ 6, 4, 2, 2, 2 }), L;
    L = level < 4 ? level : level == 4 ? range (4, QML) : 0;
    if (chance (15)) L = QML;
    i64 h = qlen (L), last = ((i64) 1 << L) - 1;
    Pt p;
    for (int a = 0; a < DIM; ++a) { int k = weighted ({ 4, 4, 1 }); p.x[a] = h * (k == 0 ? 0 : k == 1 ? last : (i64) draw (last + 1)); }
    Q q = raw_quad (p, L);
    describe ("t%d %s level %d; ", t, str (p).c_str (), L);
    /* faces */
    for (int f = 0; f < NF; ++f) {
      int d[3] = { 0, 0, 0 }; d[f / 2] = f & 1 ? 1 : -1;
      Pt o = opposite (p, d, h), want = o; int wt = t, wcode = f ^ 1;
      if (!inside (o)) {
        const FaceMap & m = conn.fmap[t * NF + f];
        if (m.boundary) { wt = -1; want = p; }
        else { wt = m.nt; want = conn.facebox (t, f, o, h); wcode = conn.ttf[t * NF + f]; crossed = true; }
      }
      Q r; memset (&r, -1, sizeof r); P4EST_QUADRANT_INIT (&r);
      int code = -77;
      int rt = (int) p4est_quadrant_face_neighbor_extra (&q, t, f, &r, &code, c);
      CHECK (rt == wt && same (r, want, L), "face %d neighbor of t%d %s level %d is t%d %s, expected t%d %s", f, t, str (p).c_str (), L, rt, str (raw_pt (&r)).c_str (), wt, str (want).c_str ());
      CHECK (wt < 0 || code == wcode, "face %d neighbor of t%d %s: face code %d, expected %d", f, t, str (p).c_str (), code, wcode);
      Q s; P4EST_QUADRANT_INIT (&s);
      int st = (int) p4est_quadrant_face_neighbor_extra (&q, t, f, &s, nullptr, c);
      CHECK (st == wt && same (s, want, L), "face neighbor differs without a face code");
      if (wt >= 0) {
        int back = (int) p4est_quadrant_face_neighbor_extra (&r, wt, code % NF, &s, nullptr, c);
        CHECK (back == t && same (s, p, L), "crossing back face %d of t%d %s gives t%d %s", f, t, str (p).c_str (), back, str (raw_pt (&s)).c_str ());
      }
      n += 3;
    }
#if VDIM == 3
    for (int e = 0; e < 12; ++e) {
      int d[3] = { 0, 0, 0 }, ax = e / 4, k = 0;
      for (int a = 0; a < 3; ++a) if (a != ax) d[a] = (e % 4 >> k++) & 1 ? 1 : -1;
      Pt o = opposite (p, d, h);
      std::vector<Rec> want;
      int m = outside_mask (o), out = __builtin_popcount (m);
      /* ends of the touching edge in t's coordinates */
      Pt e0 = p, e1; for (int a = 0; a < 3; ++a) if (d[a] > 0) e0.x[a] += h;
      e1 = e0; e1.x[ax] += h;
      auto edge_code = [&] (const Pt & box, const Pt & a, const Pt & b) {
        Pt lo = std::min (a, b), hi = std::max (a, b); int nax = -1, bits = 0, kk = 0;
        for (int i = 0; i < 3; ++i) if (lo.x[i] != hi.x[i]) nax = i;
        for (int i = 0; i < 3; ++i) if (i != nax) bits |= (lo.x[i] != box.x[i]) << kk++;
        return 4 * nax + bits + (a.x[nax] > b.x[nax] ? 12 : 0);
      };
      if (out == 0) want.push_back ({ t, o, e ^ 3 });
      else if (out == 1) {
        int a = __builtin_ctz (m), f = 2 * a + (o.x[a] >= RL);
        if (!conn.fmap[t * NF + f].boundary) {
          Pt b = conn.facebox (t, f, o, h);
          want.push_back ({ conn.fmap[t * NF + f].nt, b, edge_code (b, conn.facepoint (t, f, e0), conn.facepoint (t, f, e1)) });
          crossed = true;
        }
      } else {
        auto im = strict_images (conn, t, o, h);
        auto te = true_edges (conn, t, e);
        CHECK (im.size () == te.size (), "model");
        for (size_t i = 0; i < im.size (); ++i) want.push_back ({ im[i].first, im[i].second, te[i].idx + 12 * te[i].flip });
        crossed |= !im.empty ();
      }
      Arrays A, B;
      p8est_quadrant_edge_neighbor_extra (&q, t, e, &A.q, &A.t, &A.n, c);
      auto got = A.get (L, "edge neighbors");
      std::sort (want.begin (), want.end ());
      CHECK (got == want, "edge %d neighbors of t%d %s level %d:%s, expected%s", e, t, str (p).c_str (), L, list (got).c_str (), list (want).c_str ());
      p8est_quadrant_edge_neighbor_extra (&q, t, e, &B.q, &B.t, nullptr, c);
      CHECK (B.q.elem_count == A.q.elem_count && B.t.elem_count == A.t.elem_count && (B.q.elem_count == 0 || !memcmp (B.t.array, A.t.array, A.t.elem_count * A.t.elem_size)), "edge neighbors differ without codes");
      for (auto & r : want) {         /* and back */
        Arrays C; Q x = raw_quad (r.p, L);
        p8est_quadrant_edge_neighbor_extra (&x, r.tree, r.code % 12, &C.q, &C.t, &C.n, c);
        auto b = C.get (L, "edge neighbors");
        CHECK (std::count (b.begin (), b.end (), Rec { t, p, e + 12 * (r.code >= 12) }) == 1, "edge %d of t%d %s: crossing back from t%d %s gives%s", e, t, str (p).c_str (), r.tree, str (r.p).c_str (), list (b).c_str ());
      }
      n += 2 + want.size ();
    }
#endif
    for (int k = 0; k < NCH; ++k) {
      int d[3] = { 0, 0, 0 };
      for (int a = 0; a < DIM; ++a) d[a] = (k >> a) & 1 ? 1 : -1;
      Pt o = opposite (p, d, h), pt = p; for (int a = 0; a < DIM; ++a) if (d[a] > 0) pt.x[a] += h;
      std::vector<Rec> want;
      auto corner_code = [&] (const Pt & box, const Pt & x) { int r = 0; for (int a = 0; a < DIM; ++a) r |= (x.x[a] != box.x[a]) << a; return r; };
      int m = outside_mask (o), out = __builtin_popcount (m);
      if (out == 0) want.push_back ({ t, o, k ^ (NCH - 1) });
      else if (out == 1) {
        int a = __builtin_ctz (m), f = 2 * a + (o.x[a] >= RL);
        if (!conn.fmap[t * NF + f].boundary) { Pt b = conn.facebox (t, f, o, h); want.push_back ({ conn.fmap[t * NF + f].nt, b, corner_code (b, conn.facepoint (t, f, pt)) }); crossed = true; }
      } else if (DIM == 3 && out == 2) {
        int ax = __builtin_ctz (~m), kk = 0, b = 0;
        for (int a = 0; a < 3; ++a) if (a != ax) b |= (o.x[a] >= RL) << kk++;
        int e = 4 * ax + b;
        auto im = strict_images (conn, t, o, h); auto te = true_edges (conn, t, e);
        for (size_t i = 0; i < im.size (); ++i) {
          int ne = te[i].idx, nax = ne / 4, r = 0; kk = 0;
          i64 along = te[i].flip ? RL - pt.x[ax] : pt.x[ax];
          for (int a = 0; a < 3; ++a) if (a == nax) r |= (along != im[i].second.x[a]) << a; else r |= ((ne % 4 >> kk++) & 1) << a;
          want.push_back ({ im[i].first, im[i].second, r });
        }
        crossed |= !im.empty ();
      } else {
        auto im = strict_images (conn, t, o, h); auto tc = true_corners (conn, t, k);
        for (size_t i = 0; i < im.size (); ++i) want.push_back ({ im[i].first, im[i].second, tc[i].idx });
        crossed |= !im.empty ();
      }
      Arrays A, B;
      p4est_quadrant_corner_neighbor_extra (&q, t, k, &A.q, &A.t, &A.n, c);
      auto got = A.get (L, "corner neighbors");
      std::sort (want.begin (), want.end ());
      CHECK (got == want, "corner %d neighbors of t%d %s level %d:%s, expected%s", k, t, str (p).c_str (), L, list (got).c_str (), list (want).c_str ());
      p4est_quadrant_corner_neighbor_extra (&q, t, k, &B.q, &B.t, nullptr, c);
      CHECK (B.q.elem_count == A.q.elem_count && B.t.elem_count == A.t.elem_count, "corner neighbors differ without codes");
      for (auto & r : want) {
        Arrays C; Q x = raw_quad (r.p, L);
        p4est_quadrant_corner_neighbor_extra (&x, r.tree, r.code, &C.q, &C.t, &C.n, c);
        auto b = C.get (L, "corner neighbors");
        CHECK (std::count (b.begin (), b.end (), Rec { t, p, k }) == 1, "corner %d of t%d %s: crossing back from t%d %s gives%s", k, t, str (p).c_str (), r.tree, str (r.p).c_str (), list (b).c_str ());
      }
      n += 2 + want.size ();
    }
    /* canonical representative of points on and in the quadrant */
    for (int j = 0; j < 4; ++j) {
      Pt x = p; int k = (int) draw (NDIR); const int *d = direction (k);
      for (int a = 0; a < DIM; ++a) x.x[a] += d[a] < 0 ? 0 : d[a] > 0 ? h : h / 2;
      auto cl = conn.point_class (t, x);
      std::pair<int, Pt> first = cl.front ();
      bool have = false;
      int ct = -1; Pt cp;
      for (auto & y : cl) {
        p4est_qcoord_t in[3], out[3] = { -1, -1, -1 }; p4est_topidx_t to = -5;
        for (int a = 0; a < DIM; ++a) in[a] = (p4est_qcoord_t) y.second.x[a];
        p4est_connectivity_coordinates_canonicalize (c, y.first, in, &to, out);
        Pt r; for (int a = 0; a < DIM; ++a) r.x[a] = out[a];
        CHECK (to == first.first, "point t%d %s: canonical tree is %d, the lowest tree touching it is %d", y.first, str (y.second).c_str (), (int) to, first.first);
        CHECK (std::binary_search (cl.begin (), cl.end (), std::make_pair ((int) to, r)), "point t%d %s: canonical t%d %s is a different point", y.first, str (y.second).c_str (), (int) to, str (r).c_str ());
        if (have) CHECK (ct == to && cp == r, "point t%d %s: canonical t%d %s but from t%d it is t%d %s", y.first, str (y.second).c_str (), (int) to, str (r).c_str (), cl[0].first, ct, str (cp).c_str ());
        have = true; ct = (int) to; cp = r; ++n;
      }
      if (cl.size () > 1) label ("canonical point of a class");
    }
  }
  /* raw transforms of one tree */
  for (int it = 0; it < 2; ++it) {
    int t = (int) draw (conn.nt), L = range (0, 5); i64 h = qlen (L);
    if (chance (10)) { L = QML; h = qlen (L); }
    for (int f = 0; f < NF; ++f) {
      int ft[9]; p4est_topidx_t nt = p4est_find_face_transform (c, t, f, ft);
      const FaceMap & m = conn.fmap[t * NF + f];
      CHECK (nt == (m.boundary ? -1 : m.nt), "find_face_transform of t%d face %d is %d", t, f, (int) nt);
      if (m.boundary) continue;
      Pt p; for (int a = 0; a < DIM; ++a) p.x[a] = h * (i64) draw ((u64) 1 << L);
      if (chance (60)) p.x[f / 2] = f & 1 ? RL : -h;
      Q q = raw_quad (p, L), r; P4EST_QUADRANT_INIT (&r);
      p4est_quadrant_transform_face (&q, &r, ft);
      Pt w = conn.facebox (t, f, p, h);
      CHECK (same (r, w, L), "transform_face t%d face %d: box %s goes to %s, expected %s", t, f, str (p).c_str (), str (raw_pt (&r)).c_str (), str (w).c_str ());
      p4est_qcoord_t in[3] = { 0, 0, 0 }, out[3] = { -1, -1, -1 }; Pt x = p;
      x.x[f / 2] = f & 1 ? RL : 0;
      for (int a = 0; a < DIM; ++a) in[a] = (p4est_qcoord_t) x.x[a];
      p4est_coordinates_transform_face (in, out, ft);
      Pt y = conn.facepoint (t, f, x), g; for (int a = 0; a < DIM; ++a) g.x[a] = out[a];
      CHECK (g == y, "coordinates_transform_face t%d face %d: %s goes to %s, expected %s", t, f, str (x).c_str (), str (g).c_str (), str (y).c_str ());
      n += 3;
    }
#if VDIM == 3
    for (int e = 0; e < 12; ++e) {
      p8est_edge_info_t ei; ei.iedge = -1; sc_array_init (&ei.edge_transforms, sizeof (p8est_edge_transform_t));
      p8est_find_edge_transform (c, t, e, &ei);
      auto te = true_edges (conn, t, e);
      std::vector<Nb> got;
      i64 along = h * (i64) draw ((u64) 1 << L), hh = h;
      Pt o; int ax = e / 4, k = 0;
      for (int a = 0; a < 3; ++a) o.x[a] = a == ax ? along : (e % 4 >> k++) & 1 ? RL : -hh;
      auto im = strict_images (conn, t, o, h);
      for (size_t i = 0; i < ei.edge_transforms.elem_count; ++i) {
        auto *et = (p8est_edge_transform_t *) sc_array_index (&ei.edge_transforms, i);
        got.push_back ({ (int) et->ntree, et->nedge, et->nflip });
        Q q = raw_quad (o, L), r; P4EST_QUADRANT_INIT (&r);
        p8est_quadrant_transform_edge (&q, &r, &ei, et, 1);
        size_t j = std::find (te.begin (), te.end (), got.back ()) - te.begin ();
        CHECK (j < te.size (), "edge transform t%d edge %d reaches t%d edge %d flip %d, which is not an edge neighbor", t, e, (int) et->ntree, et->nedge, et->nflip);
        CHECK (same (r, im[j].second, L), "transform_edge t%d edge %d to t%d edge %d: box %s goes to %s, expected %s", t, e, (int) et->ntree, et->nedge, str (o).c_str (), str (raw_pt (&r)).c_str (), str (im[j].second).c_str ());
        /* the inside box goes outside */
        Pt ib = o; for (int a = 0; a < 3; ++a) if (a != ax) ib.x[a] = o.x[a] < 0 ? 0 : RL - h;
        Pt wo = im[j].second; int nax = et->nedge / 4; for (int a = 0; a < 3; ++a) if (a != nax) wo.x[a] = wo.x[a] == 0 && !((et->nedge % 4) >> (a > nax ? a - 1 : a) & 1) ? -h : RL;
        Q q2 = raw_quad (ib, L);
        p8est_quadrant_transform_edge (&q2, &r, &ei, et, 0);
        CHECK (same (r, wo, L), "transform_edge t%d edge %d to t%d edge %d: inside box %s goes to %s, expected %s outside", t, e, (int) et->ntree, et->nedge, str (ib).c_str (), str (raw_pt (&r)).c_str (), str (wo).c_str ());
        p4est_qcoord_t in[3], out[3] = { -1, -1, -1 }; Pt x = o, y;
        for (int a = 0; a < 3; ++a) if (a != ax) x.x[a] = o.x[a] < 0 ? 0 : RL;
        int kk = 0;
        for (int a = 0; a < 3; ++a) y.x[a] = a == nax ? (et->nflip ? RL - along : along) : (et->nedge % 4 >> kk++) & 1 ? RL : 0;
        for (int a = 0; a < 3; ++a) in[a] = (p4est_qcoord_t) x.x[a];
        p8est_coordinates_transform_edge (in, out, &ei, et);
        Pt g; for (int a = 0; a < 3; ++a) g.x[a] = out[a];
        CHECK (g == y, "coordinates_transform_edge t%d edge %d: %s goes to %s, expected %s", t, e, str (x).c_str (), str (g).c_str (), str (y).c_str ());
        n += 4;
      }
      std::sort (got.begin (), got.end ()); std::sort (te.begin (), te.end ());
      CHECK (got == te, "find_edge_transform t%d edge %d finds %zu neighbors, expected %zu", t, e, got.size (), te.size ());
      sc_array_reset (&ei.edge_transforms);
    }
#endif
    for (int k = 0; k < NCH; ++k) {
      p4est_corner_info_t ci; ci.icorner = -1; sc_array_init (&ci.corner_transforms, sizeof (p4est_corner_transform_t));
      p4est_find_corner_transform (c, t, k, &ci);
      std::vector<Nb> got, want = true_corners (conn, t, k);
      for (size_t i = 0; i < ci.corner_transforms.elem_count; ++i) { auto *ct = (p4est_corner_transform_t *) sc_array_index (&ci.corner_transforms, i); got.push_back ({ (int) ct->ntree, ct->ncorner, 0 }); }
      std::sort (got.begin (), got.end ()); std::sort (want.begin (), want.end ());
      CHECK (got == want, "find_corner_transform t%d corner %d finds %zu neighbors, expected %zu", t, k, got.size (), want.size ());
      sc_array_reset (&ci.corner_transforms);
      Q q = raw_quad (Pt (), L);
      for (int in = 0; in < 2; ++in) {
        p4est_quadrant_transform_corner (&q, k, in);
        Pt w; for (int a = 0; a < DIM; ++a) w.x[a] = (k >> a) & 1 ? (in ? RL - h : RL) : in ? 0 : -h;
        CHECK (same (q, w, L), "transform_corner %d inside %d gives %s", k, in, str (raw_pt (&q)).c_str ());
      }
      { p4est_quadrant_t nq = raw_quad (Pt (), ML); p4est_quadrant_transform_corner (&nq, k, 0);
        Pt w; for (int a = 0; a < DIM; ++a) w.x[a] = (k >> a) & 1 ? RL : 0;
        CHECK (same (nq, w, ML), "transform_corner %d of a point gives %s", k, str (raw_pt (&nq)).c_str ()); }
      p4est_qcoord_t out[3]; p4est_coordinates_transform_corner (out, k);
      for (int a = 0; a < DIM; ++a) CHECK (out[a] == ((k >> a) & 1 ? RL : 0), "coordinates_transform_corner %d", k);
      n += 3;
    }
    /* neighbor transforms */
    struct Dirn { p4est_connect_type_t type; int idx; };
    std::vector<Dirn> ds { { P4EST_CONNECT_SELF, 0 }, { P4EST_CONNECT_FACE, (int) draw (NF) }, { P4EST_CONNECT_CORNER, (int) draw (NCH) } };
    D3 (ds.push_back ({ P8EST_CONNECT_EDGE, (int) draw (12) });)
    for (auto & D : ds) {
      struct Want { int type, nt, is, in; bool operator< (const Want & o) const { return std::tie (type, nt, is, in) < std::tie (o.type, o.nt, o.is, o.in); } bool operator== (const Want & o) const { return !(*this < o) && !(o < *this); } };
      std::vector<Want> want { { P4EST_CONNECT_SELF, t, 0, 0 } }, got;
      for (int f = 0; f < NF && D.type != P4EST_CONNECT_SELF; ++f) {
        bool on = D.type == P4EST_CONNECT_FACE ? f == D.idx : D.type == P4EST_CONNECT_CORNER ? face_has_corner (f, D.idx) : face_has_corner (f, edge_corner (D.idx, 0)) && face_has_corner (f, edge_corner (D.idx, 1));
        if (on && !conn.fmap[t * NF + f].boundary) want.push_back ({ P4EST_CONNECT_FACE, conn.fmap[t * NF + f].nt, f, conn.fmap[t * NF + f].nf });
      }
#if VDIM == 3
      for (int e = 0; e < 12; ++e) if (D.type == P8EST_CONNECT_EDGE ? e == D.idx : D.type == P4EST_CONNECT_CORNER && (edge_corner (e, 0) == D.idx || edge_corner (e, 1) == D.idx))
        for (auto & x : true_edges (conn, t, e)) want.push_back ({ P8EST_CONNECT_EDGE, x.tree, e, x.idx });
#endif
      if (D.type == P4EST_CONNECT_CORNER) for (auto & x : true_corners (conn, t, D.idx)) want.push_back ({ P4EST_CONNECT_CORNER, x.tree, D.idx, x.idx });
      sc_array_t *arr = sc_array_new (sizeof (p4est_neighbor_transform_t));
      p4est_connectivity_get_neighbor_transforms (c, t, D.type, D.idx, arr);
      for (size_t i = 0; i < arr->elem_count; ++i) {
        auto *x = (p4est_neighbor_transform_t *) sc_array_index (arr, i);
        got.push_back ({ (int) x->neighbor_type, (int) x->neighbor, x->index_self, x->index_neighbor });
        /* a box outside self touching exactly this interface lands inside the neighbor */
        Pt o; for (int a = 0; a < DIM; ++a) o.x[a] = h * (i64) draw ((u64) 1 << L);
        std::set<std::pair<int, Pt>> ok;
        std::set<std::pair<int, Pt>> okp; Pt ip = o;    /* a point of the interface */
        if (x->neighbor_type == P4EST_CONNECT_SELF) { ok.insert ({ t, o }); okp.insert ({ t, ip }); }
        else if (x->neighbor_type == P4EST_CONNECT_FACE) {
          int f = x->index_self; CHECK (f >= 0 && f < NF, "index_self %d", f);
          o.x[f / 2] = f & 1 ? RL : -h; ip.x[f / 2] = f & 1 ? RL : 0;
          if (!conn.fmap[t * NF + f].boundary) { ok.insert ({ conn.fmap[t * NF + f].nt, conn.facebox (t, f, o, h) }); okp.insert ({ conn.fmap[t * NF + f].nt, conn.facepoint (t, f, ip) }); }
        } else if (DIM == 3 && x->neighbor_type != P4EST_CONNECT_CORNER) {
          int e = x->index_self, k = 0; CHECK (e >= 0 && e < 12, "index_self %d", e);
          for (int a = 0; a < 3; ++a) if (a != e / 4) { bool hi = (e % 4 >> k++) & 1; o.x[a] = hi ? RL : -h; ip.x[a] = hi ? RL : 0; }
          auto im = strict_images (conn, t, o, h); auto te = true_edges (conn, t, e);
          for (size_t z = 0; z < im.size (); ++z) if (te[z].idx == x->index_neighbor) {
            ok.insert (im[z]);
            Pt y; int nax = te[z].idx / 4, kk = 0; for (int a = 0; a < 3; ++a) y.x[a] = a == nax ? (te[z].flip ? RL - ip.x[e / 4] : ip.x[e / 4]) : (te[z].idx % 4 >> kk++) & 1 ? RL : 0;
            okp.insert ({ te[z].tree, y });
          }
        } else {
          for (int a = 0; a < DIM; ++a) { bool hi = (x->index_self >> a) & 1; o.x[a] = hi ? RL : -h; ip.x[a] = hi ? RL : 0; }
          Pt w, y; for (int a = 0; a < DIM; ++a) { bool hi = (x->index_neighbor >> a) & 1; w.x[a] = hi ? RL - h : 0; y.x[a] = hi ? RL : 0; }
          ok.insert ({ (int) x->neighbor, w }); okp.insert ({ (int) x->neighbor, y });
        }
        Q q = raw_quad (o, L), r, s; P4EST_QUADRANT_INIT (&r); P4EST_QUADRANT_INIT (&s);
        p4est_neighbor_transform_quadrant (x, &q, &r);
        CHECK (r.level == L && ok.count ({ (int) x->neighbor, raw_pt (&r) }), "neighbor transform type %d of t%d index %d to t%d index %d maps box %s to %s", (int) x->neighbor_type, t, x->index_self, (int) x->neighbor, x->index_neighbor, str (o).c_str (), str (raw_pt (&r)).c_str ());
        p4est_neighbor_transform_quadrant_reverse (x, &r, &s);
        CHECK (same (s, o, L), "reverse of the neighbor transform type %d of t%d index %d to t%d index %d maps %s to %s, expected %s", (int) x->neighbor_type, t, x->index_self, (int) x->neighbor, x->index_neighbor, str (raw_pt (&r)).c_str (), str (raw_pt (&s)).c_str (), str (o).c_str ());
        p4est_qcoord_t in[3], out[3], rev[3];
        for (int a = 0; a < DIM; ++a) in[a] = (p4est_qcoord_t) ip.x[a];
        p4est_neighbor_transform_coordinates (x, in, out);
        Pt g; for (int a = 0; a < DIM; ++a) g.x[a] = out[a];
        CHECK (okp.count ({ (int) x->neighbor, g }), "neighbor transform type %d of t%d index %d to t%d index %d maps point %s to %s", (int) x->neighbor_type, t, x->index_self, (int) x->neighbor, x->index_neighbor, str (ip).c_str (), str (g).c_str ());
        p4est_neighbor_transform_coordinates_reverse (x, out, rev);
        for (int a = 0; a < DIM; ++a) CHECK (rev[a] == in[a], "reverse of the neighbor transform moves the point");
        n += 4;
      }
      std::sort (got.begin (), got.end ()); std::sort (want.begin (), want.end ());
      if (!(got == want)) {
        std::string s; for (auto & w : got) s += " " + std::to_string (w.type) + ":t" + std::to_string (w.nt) + "/" + std::to_string (w.is) + "->" + std::to_string (w.in);
        s += ", expected"; for (auto & w : want) s += " " + std::to_string (w.type) + ":t" + std::to_string (w.nt) + "/" + std::to_string (w.is) + "->" + std::to_string (w.in);
        eng::fail ("neighbor transforms of t%d type %d index %d:%s", t, (int) D.type, D.idx, s.c_str ());
      }
      sc_array_destroy (arr);
    }
  }
  if (crossed) nontrivial ();
  label (conn.ne || conn.nc ? "with edge or corner classes" : "faces only");
  checks (n);
  CHECK (conn.same_as (c), "coarse mesh changed");
  p4est_connectivity_destroy (c);
}
}
