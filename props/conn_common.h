#ifndef CONN_COMMON_H
#define CONN_COMMON_H
/* full identification of tree edges and corners and well-formedness of coarse meshes */
#include "topo.h"
namespace DNS {
/* union-find with parity */
struct UF {
  std::vector<int> p, s; bool conflict = false;
  UF (int n) : p (n), s (n, 0) { for (int i = 0; i < n; ++i) p[i] = i; }
  std::pair<int, int> find (int a) { int q = 0; while (p[a] != a) { q ^= s[a]; a = p[a]; } return { a, q }; }
  void join (int a, int b, int flip) { auto x = find (a), y = find (b); if (x.first == y.first) { if ((x.second ^ y.second) != flip) conflict = true; return; }
    p[x.first] = y.first; s[x.first] = x.second ^ y.second ^ flip; }
};
struct Closure {
  UF e, c; int nt;
  Closure (int n) : e (n * 12), c (n * NCH), nt (n) { }
  void face (int t, int f, int nt, const FaceMap & m) {
    auto map = [&] (int k) { Pt p = corner_pt (k), r; for (int a = 0; a < DIM; ++a) r.x[m.axis[a]] = m.sign[a] * p.x[a] + m.off[a]; return corner_at (r); };
    for (int i = 0; i < HALF; ++i) { int k = face_corner (f, i); c.join (t * NCH + k, nt * NCH + map (k), 0); }
    if (DIM == 3) for (int ed = 0; ed < 12; ++ed) if (face_has_corner (f, edge_corner (ed, 0)) && face_has_corner (f, edge_corner (ed, 1))) {
      int a = map (edge_corner (ed, 0)), b = map (edge_corner (ed, 1));
      e.join (t * 12 + ed, nt * 12 + edge_from_corners (a, b), a > b);
    }
  }
  void add (const Conn & k) {
    for (int t = 0; t < k.nt; ++t) for (int f = 0; f < NF; ++f) if (!k.fmap[t * NF + f].boundary) face (t, f, k.fmap[t * NF + f].nt, k.fmap[t * NF + f]);
    for (auto & cl : k.edges) for (size_t i = 1; i < cl.size (); ++i) {
      e.join (cl[0].tree * 12 + cl[0].idx, cl[i].tree * 12 + cl[i].idx, cl[0].o != cl[i].o);
      for (int j = 0; j < 2; ++j) c.join (cl[0].tree * NCH + edge_corner (cl[0].idx, j ^ cl[0].o), cl[i].tree * NCH + edge_corner (cl[i].idx, j ^ cl[i].o), 0);
    }
    for (auto & cl : k.corners) for (size_t i = 1; i < cl.size (); ++i) c.join (cl[0].tree * NCH + cl[0].idx, cl[i].tree * NCH + cl[i].idx, 0);
  }
  std::vector<Nb> edge (int t, int ed) {     /* others, flip relative to ed */
    std::vector<Nb> r; auto m = e.find (t * 12 + ed);
    for (int i = 0; i < nt * 12; ++i) if (i != t * 12 + ed) { auto x = e.find (i); if (x.first == m.first) r.push_back ({ i / 12, i % 12, x.second ^ m.second }); }
    return r;
  }
  std::vector<Nb> corner (int t, int k) {
    std::vector<Nb> r; auto m = c.find (t * NCH + k);
    for (int i = 0; i < nt * NCH; ++i) if (i != t * NCH + k) { auto x = c.find (i); if (x.first == m.first) r.push_back ({ i / NCH, i % NCH, 0 }); }
    return r;
  }
};
inline std::string list (const std::vector<Nb> & v) { std::string s; for (auto & n : v) s += " t" + std::to_string (n.tree) + "/" + std::to_string (n.idx) + (n.flip ? "r" : ""); return s.empty () ? " nothing" : s; }
/* every member of an identified edge or corner is reached directly: by one face, [one edge,] or the stored class */
inline void check_topology (const Conn & k, Closure & cl, const char *ctx) {
  for (int t = 0; t < k.nt; ++t) {
    if (DIM == 3) for (int e = 0; e < 12; ++e) {
      auto v = edges_by_face (k, t, e), w = edge_class (k, t, e), want = cl.edge (t, e);
      v.insert (v.end (), w.begin (), w.end ());
      std::set<Nb> s (v.begin (), v.end ()); s.erase ({ t, e, 0 });
      std::sort (want.begin (), want.end ());
      std::vector<Nb> have (s.begin (), s.end ());
      CHECK (have == want, "%s: edge %d of tree %d is identified with%s, expected%s", ctx, e, t, list (have).c_str (), list (want).c_str ());
    }
    for (int c = 0; c < NCH; ++c) {
      auto v = corners_by_lower (k, t, c), w = corner_class (k, t, c), want = cl.corner (t, c);
      v.insert (v.end (), w.begin (), w.end ());
      std::set<Nb> s (v.begin (), v.end ()); s.erase ({ t, c, 0 });
      std::sort (want.begin (), want.end ());
      std::vector<Nb> have (s.begin (), s.end ());
      CHECK (have == want, "%s: corner %d of tree %d is identified with%s, expected%s", ctx, c, t, list (have).c_str (), list (want).c_str ());
    }
  }
}
/* the documented rules of the tables; undecided: rules that nothing documents */
inline bool tables_valid (const Conn & k, bool *undecided, std::string *why = nullptr) {
  auto bad = [&] (const char *s) { if (why) *why = s; return false; };
  for (auto v : k.ttv) if (v < 0 || v >= k.nv) return bad ("vertex range");
  for (size_t i = 0; i < k.ttt.size (); ++i) {
    if (k.ttt[i] < 0 || k.ttt[i] >= k.nt) return bad ("tree range");
    if (k.ttf[i] < 0 || k.ttf[i] >= NF * HALF) return bad ("face range");
  }
  for (int t = 0; t < k.nt; ++t) for (int f = 0; f < NF; ++f) {
    int n = k.ttt[t * NF + f], c = k.ttf[t * NF + f], nf = c % NF, o = c / NF;
    if (n == t && nf == f) { if (o) return bad ("boundary orientation"); continue; }
    if (k.ttt[n * NF + nf] != t || k.ttf[n * NF + nf] != f + NF * o) return bad ("face reciprocity");
  }
  auto classes = [&] (int n, int per, const std::vector<p4est_topidx_t> & tt, const std::vector<p4est_topidx_t> & off, const std::vector<p4est_topidx_t> & xt, const std::vector<int8_t> & xx, int codes) {
    if (n == 0) return true;
    for (size_t i = 0; i < xt.size (); ++i) if (xt[i] < 0 || xt[i] >= k.nt || xx[i] < 0 || xx[i] >= codes) return bad ("class member range");
    for (int c = 0; c < n; ++c) if (off[c] > off[c + 1]) return bad ("class offsets");
    if (off[0] != 0) *undecided = true;
    std::vector<char> used (n, 0);
    for (int i = 0; i < k.nt * per; ++i) {
      int c = tt[i];
      if (c < -1 || c >= n) return bad ("class range");
      if (c < 0) continue;
      used[c] = 1; int seen = 0;
      if (off[c] < 0 || off[c + 1] > (int) xt.size ()) return bad ("class offsets");
      for (int j = off[c]; j < off[c + 1]; ++j) {
        if (tt[xt[j] * per + xx[j] % per] != c) return bad ("class reciprocity");
        if (xt[j] == i / per && xx[j] % per == i % per) ++seen;
      }
      if (seen == 0) return bad ("not in its class");
      if (seen > 1) { if (per == 12) *undecided = true; else return bad ("twice in its class"); }
    }
    for (char u : used) if (!u) *undecided = true;   /* unreferenced classes */
    return true;
  };
  if (DIM == 3 && !classes (k.ne, 12, k.tte, k.ett_off, k.ett, k.ete, 24)) return false;
  return classes (k.nc, NCH, k.ttc, k.ctt_off, k.ctt, k.ctc, NCH);
}
/* raw allocation without checks */
inline p4est_connectivity_t *raw_conn (const Conn & k) {
  p4est_connectivity_t *c = p4est_connectivity_new (k.nv, k.nt,
#if VDIM == 3
    k.ne, k.ett_off[k.ne],
#endif
    k.nc, k.ctt_off[k.nc]);
  if (k.nv) { memcpy (c->vertices, k.vertices.data (), k.vertices.size () * sizeof (double)); memcpy (c->tree_to_vertex, k.ttv.data (), k.ttv.size () * sizeof (p4est_topidx_t)); }
  memcpy (c->tree_to_tree, k.ttt.data (), k.ttt.size () * sizeof (p4est_topidx_t)); memcpy (c->tree_to_face, k.ttf.data (), k.ttf.size ());
#if VDIM == 3
  if (k.ne) { memcpy (c->tree_to_edge, k.tte.data (), k.tte.size () * sizeof (p4est_topidx_t)); memcpy (c->edge_to_tree, k.ett.data (), k.ett.size () * sizeof (p4est_topidx_t)); memcpy (c->edge_to_edge, k.ete.data (), k.ete.size ()); }
  memcpy (c->ett_offset, k.ett_off.data (), (k.ne + 1) * sizeof (p4est_topidx_t));
#endif
  if (k.nc) { memcpy (c->tree_to_corner, k.ttc.data (), k.ttc.size () * sizeof (p4est_topidx_t)); memcpy (c->corner_to_tree, k.ctt.data (), k.ctt.size () * sizeof (p4est_topidx_t)); memcpy (c->corner_to_corner, k.ctc.data (), k.ctc.size ()); }
  memcpy (c->ctt_offset, k.ctt_off.data (), (k.nc + 1) * sizeof (p4est_topidx_t));
  return c;
}
/* a mesh of cells given by vertices alone: some cells of a grid, rotated, with vertices merged at random */
struct VMesh { int nv = 0, nt = 0; std::vector<double> v; std::vector<p4est_topidx_t> ttv; bool merged = false; };
inline std::vector<std::array<int, NCH>> cell_rotations () {
  std::vector<std::array<int, NCH>> r; int perm[3] = { 0, 1, 2 };
  do for (int s = 0; s < (1 << DIM); ++s) {
    int inv = 0; for (int i = 0; i < DIM; ++i) for (int j = i + 1; j < DIM; ++j) inv += perm[i] > perm[j];
    if (DIM == 3 && (inv + __builtin_popcount (s)) % 2) continue;
    std::array<int, NCH> m;
    for (int c = 0; c < NCH; ++c) { int d = 0; for (int i = 0; i < DIM; ++i) d |= (((c >> i) & 1) ^ ((s >> i) & 1)) << perm[i]; m[c] = d; }
    r.push_back (m);
  } while (std::next_permutation (perm, perm + DIM));
  return r;
}
/* false if the vertices do not determine the mesh */
inline bool vmesh_ok (const VMesh & m, std::vector<int> *face_nb = nullptr) {
  std::map<std::vector<int>, std::vector<int>> fs;
  for (int t = 0; t < m.nt; ++t) {
    std::set<int> s (m.ttv.begin () + t * NCH, m.ttv.begin () + (t + 1) * NCH);
    if ((int) s.size () != NCH) return false;
    for (int f = 0; f < NF; ++f) { std::vector<int> k; for (int i = 0; i < HALF; ++i) k.push_back (m.ttv[t * NCH + face_corner (f, i)]); std::sort (k.begin (), k.end ()); fs[k].push_back (t * NF + f); }
  }
  if (face_nb) face_nb->assign (m.nt * NF, -1);
  for (auto & f : fs) {
    if (f.second.size () > 2) return false;
    if (f.second.size () == 2) {
      int a = f.second[0], b = f.second[1];
      if (face_nb) { (*face_nb)[a] = b; (*face_nb)[b] = a; }
      /* the vertices must match through one of the orientations */
      bool ok = false;
      for (int o = 0; o < HALF && !ok; ++o) {
        FaceMap fm = make_face_map (a % NF, b % NF + NF * o); ok = true;
        for (int i = 0; i < HALF; ++i) { int k = face_corner (a % NF, i); Pt p = corner_pt (k), r; for (int x = 0; x < DIM; ++x) r.x[fm.axis[x]] = fm.sign[x] * p.x[x] + fm.off[x]; ok = ok && m.ttv[a / NF * NCH + k] == m.ttv[b / NF * NCH + corner_at (r)]; }
      }
      if (!ok) return false;
    }
  }
  return true;
}
inline VMesh draw_vmesh () {
  using namespace eng;
  VMesh m; int n[3] = { range (1, 3), range (1, 3), DIM == 3 ? range (1, 3) : 1 };
  std::vector<int> cells; int dens = range (30, 100);
  for (int i = 0; i < n[0] * n[1] * n[2]; ++i) if ((int) draw (100) < dens) cells.push_back (i);
  if (cells.empty ()) cells.push_back (0);
  if (cells.size () > 14) cells.resize (14);
  if (chance (30)) for (size_t i = cells.size (); i > 1; --i) std::swap (cells[i - 1], cells[draw (i)]);
  auto rots = cell_rotations (); bool rot = chance (50);
  std::map<int, int> vid;
  m.nt = (int) cells.size ();
  m.ttv.resize (m.nt * NCH);
  for (int t = 0; t < m.nt; ++t) {
    int c = cells[t], b[3] = { c % n[0], c / n[0] % n[1], c / (n[0] * n[1]) };
    auto & r = rots[rot ? draw (rots.size ()) : 0];
    for (int q = 0; q < NCH; ++q) {
      int id = b[0] + (q & 1) + 8 * (b[1] + ((q >> 1) & 1) + 8 * (b[2] + ((q >> 2) & 1)));
      if (!vid.count (id)) { int nid = (int) vid.size (); vid[id] = nid; m.v.push_back (id % 8); m.v.push_back (id / 8 % 8); m.v.push_back (id / 64); }
      m.ttv[t * NCH + (rot ? r[q] : q)] = vid[id];
    }
  }
  m.nv = (int) vid.size ();
  int merges = weighted ({ 50, 20, 20, 10 });
  for (int i = 0; i < merges; ++i) {
    VMesh k = m; int a = (int) draw (m.nv), b = (int) draw (m.nv);
    for (auto & x : k.ttv) if (x == b) x = a;
    if (a != b && vmesh_ok (k)) { m = k; m.merged = true; }
  }
  if (chance (30)) { m.v.insert (m.v.end (), { 9., 9., 9. }); m.nv++; }  /* an unused vertex */
  return m;
}
/* the mesh that the vertices imply */
inline Closure vmesh_closure (const VMesh & m) {
  Closure c (m.nt);
  std::map<int, int> first; std::map<std::pair<int, int>, int> fe;
  for (int i = 0; i < m.nt * NCH; ++i) { int v = m.ttv[i]; if (!first.count (v)) first[v] = i; else c.c.join (first[v], i, 0); }
  if (DIM == 3) for (int t = 0; t < m.nt; ++t) for (int e = 0; e < 12; ++e) {
    int a = m.ttv[t * NCH + edge_corner (e, 0)], b = m.ttv[t * NCH + edge_corner (e, 1)];
    auto k = std::make_pair (std::min (a, b), std::max (a, b));
    if (!fe.count (k)) fe[k] = (t * 12 + e) * 2 + (a > b); else c.e.join (fe[k] / 2, t * 12 + e, (fe[k] & 1) != (a > b));
  }
  return c;
}
inline void check_vmesh (const VMesh & m, const Conn & k, const char *ctx) {
  std::vector<int> nb;
  if (!vmesh_ok (m, &nb)) eng::internal ("vertex mesh");
  CHECK (k.nt == m.nt && k.nv == m.nv && k.ttv == m.ttv && k.vertices == m.v, "%s: vertices changed", ctx);
  for (int i = 0; i < m.nt * NF; ++i) {
    int got = k.fmap[i].boundary ? -1 : k.ttt[i] * NF + k.ttf[i] % NF;
    CHECK (got == nb[i], "%s: face %d of tree %d is glued to %d/%d, expected %d/%d", ctx, i % NF, i / NF, got < 0 ? -1 : got / NF, got < 0 ? -1 : got % NF, nb[i] < 0 ? -1 : nb[i] / NF, nb[i] < 0 ? -1 : nb[i] % NF);
    if (got >= 0) for (int j = 0; j < HALF; ++j) { int c = face_corner (i % NF, j), d = corner_across (k, i / NF, i % NF, c);
      CHECK (m.ttv[i / NF * NCH + c] == m.ttv[got / NF * NCH + d], "%s: face %d of tree %d is glued to tree %d face %d with orientation %d, which does not match the vertices", ctx, i % NF, i / NF, got / NF, got % NF, k.ttf[i] / NF); }
  }
  Closure cl = vmesh_closure (m);
  check_topology (k, cl, ctx);
}
/* one entry of one table is changed */
inline bool mutate (Conn & k, std::string & what) {
  using namespace eng;
  auto value = [&] (int lo, int hi, int old) { int r = weighted ({ 3, 1, 1, 1, 1 }); int v = r == 0 ? range (lo, hi) : r == 1 ? lo - 1 : r == 2 ? hi + 1 : r == 3 ? old + 1 : old - 1; return v; };
  int kind = weighted ({ 4, 4, 2, 4, 3, 3, 2, DIM == 3 ? 4 : 0, DIM == 3 ? 3 : 0, DIM == 3 ? 3 : 0, DIM == 3 ? 2 : 0 }), old = 0, now = 0;
  size_t i = 0;
#define SET(vec, name, lo, hi) do { if (vec.empty ()) return false; i = draw (vec.size ()); old = vec[i]; now = value (lo, hi, old); vec[i] = (std::remove_reference<decltype (vec[i])>::type) now; now = vec[i]; what = name; } while (0)
  switch (kind) {
  case 0: SET (k.ttt, "tree_to_tree", 0, k.nt - 1); break;
  case 1: SET (k.ttf, "tree_to_face", 0, NF * HALF - 1); break;
  case 2: SET (k.ttv, "tree_to_vertex", 0, k.nv - 1); break;
  case 3: SET (k.ttc, "tree_to_corner", -1, k.nc - 1); break;
  case 4: SET (k.ctt, "corner_to_tree", 0, k.nt - 1); break;
  case 5: SET (k.ctc, "corner_to_corner", 0, NCH - 1); break;
  case 6: if (k.nc < 2) return false; i = 1 + draw (k.nc - 1); old = k.ctt_off[i]; now = value (0, k.ctt_off[k.nc], old); if (now < 0) return false; k.ctt_off[i] = now; what = "ctt_offset"; break;
  case 7: SET (k.tte, "tree_to_edge", -1, k.ne - 1); break;
  case 8: SET (k.ett, "edge_to_tree", 0, k.nt - 1); break;
  case 9: SET (k.ete, "edge_to_edge", 0, 23); break;
  case 10: if (k.ne < 2) return false; i = 1 + draw (k.ne - 1); old = k.ett_off[i]; now = value (0, k.ett_off[k.ne], old); if (now < 0) return false; k.ett_off[i] = now; what = "ett_offset"; break;
  }
  char b[60]; snprintf (b, sizeof b, "[%zu] %d -> %d", i, old, now);
  what += b;
  return old != now;
}
}
#endif
