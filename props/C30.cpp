/* Tetrahedral meshes: files, orientation repair, conversion to hexahedra */
#include "conn_common.h"
#include <cmath>
#include <p8est_tets_hexes.h>
namespace DNS {
using namespace eng;
struct Tets { std::vector<std::array<double, 3>> x; std::vector<std::array<int, 4>> t; std::vector<int> attr; bool abstract = false, hasattr = false; };
static i64 det (const Tets & m, const std::array<int, 4> & t) {
  i64 v[3][3];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v[i][j] = (i64) m.x[t[i + 1]][j] - (i64) m.x[t[0]][j];
  return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
}
/* part of a divided grid; every tet right-handed, by its nodes or, where the grid closes, by construction */
static Tets draw_tets () {
  Tets m; int n[3], wrap[3]; bool five = chance (35);
  for (int a = 0; a < 3; ++a) { n[a] = range (1, 3); wrap[a] = !five && n[a] == 3 && chance (30); m.abstract |= wrap[a]; }
  int dens = weighted ({ 40, 60 }) ? range (15, 100) : 100;
  auto id = [&] (int i, int j, int k) { if (wrap[0]) i %= 3; if (wrap[1]) j %= 3; if (wrap[2]) k %= 3; return i + 4 * (j + 4 * k); };
  std::vector<std::array<int, 4>> all;
  for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
    auto at = [&] (int c) { return id (i + (c & 1), j + ((c >> 1) & 1), k + (c >> 2)); };
    if (five) {
      int o = (i + j + k) & 1 ? 1 : 0;  /* mirrored cubes alternate */
      static const int T[5][4] = { { 0, 1, 2, 4 }, { 3, 2, 1, 7 }, { 5, 4, 7, 1 }, { 6, 7, 4, 2 }, { 1, 2, 4, 7 } };
      for (auto & t : T) { std::array<int, 4> q; for (int v = 0; v < 4; ++v) q[v] = at (t[v] ^ o); all.push_back (q); }
    }
    else {
      int p[3] = { 0, 1, 2 };
      do { std::array<int, 4> q { { at (0), at (1 << p[0]), at (1 << p[0] | 1 << p[1]), at (7) } };
        int inv = (p[0] > p[1]) + (p[0] > p[2]) + (p[1] > p[2]);
        if (inv & 1) std::swap (q[2], q[3]);
        all.push_back (q); } while (std::next_permutation (p, p + 3));
    }
  }
  int cap = thorough () ? 60 : 30;
  size_t start = draw (all.size ());
  for (size_t i = 0; i < all.size () && (int) m.t.size () < cap; ++i) if ((int) draw (100) < dens) m.t.push_back (all[(i + start) % all.size ()]);
  if (m.t.empty ()) m.t.push_back (all[0]);
  bool shuffle = draw (2), unused = chance (30);
  if (shuffle) for (size_t i = m.t.size (); i > 1; --i) std::swap (m.t[i - 1], m.t[draw (i)]);
  std::set<int> ids; for (auto & t : m.t) ids.insert (t.begin (), t.end ());
  if (unused) for (int i = 0; i < 3; ++i) ids.insert (64 + i);
  std::vector<int> order (ids.begin (), ids.end ());
  if (draw (2)) for (size_t i = order.size (); i > 1; --i) std::swap (order[i - 1], order[draw (i)]);
  std::map<int, int> pos; bool jitter = draw (2);
  for (int o : order) {
    int nn = (int) pos.size (); pos[o] = nn;
    std::array<double, 3> x { { 16. * (o % 4), 16. * (o / 4 % 4), 16. * (o / 16) } };
    for (auto & c : x) { if (jitter) c += (int) draw (3) - 1; }
    m.x.push_back (x);
  }
  for (auto & t : m.t) for (auto & v : t) v = pos[v];
  for (auto & t : m.t) if (!m.abstract && det (m, t) < 0) std::swap (t[0], t[1]);
  if (draw (2)) for (auto & t : m.t) { /* even permutation */
    static const int E[12][4] = { {0,1,2,3},{0,2,3,1},{0,3,1,2},{1,0,3,2},{1,2,0,3},{1,3,2,0},{2,0,1,3},{2,1,3,0},{2,3,0,1},{3,0,2,1},{3,1,0,2},{3,2,1,0} };
    const int *e = E[draw (12)]; auto q = t; for (int i = 0; i < 4; ++i) t[i] = q[e[i]];
  }
  m.hasattr = draw (2);
  if (m.hasattr) for (size_t i = 0; i < m.t.size (); ++i) m.attr.push_back (chance (70) ? (int) draw (5) : (int) draw (600) - 300);
  return m;
}
static p8est_tets_t *make (const Tets & m) {
  p8est_tets_t *p = P4EST_ALLOC (p8est_tets_t, 1);
  p->nodes = sc_array_new_size (sizeof (double), 3 * m.x.size ());
  p->tets = sc_array_new_size (sizeof (p4est_topidx_t), 4 * m.t.size ());
  for (size_t i = 0; i < m.x.size (); ++i) memcpy (p->nodes->array + 24 * i, m.x[i].data (), 24);
  for (size_t i = 0; i < m.t.size (); ++i) for (int k = 0; k < 4; ++k) ((p4est_topidx_t *) p->tets->array)[4 * i + k] = m.t[i][k];
  p->tet_attributes = NULL;
  if (m.hasattr) { p->tet_attributes = sc_array_new_size (sizeof (int), m.t.size ()); memcpy (p->tet_attributes->array, m.attr.data (), 4 * m.attr.size ()); }
  return p;
}
static void same (const Tets & m, p8est_tets_t * p, const char *ctx) {
  CHECK (p != NULL, "%s: no mesh", ctx);
  CHECK (p->nodes->elem_size == 8 && p->nodes->elem_count == 3 * m.x.size () && p->tets->elem_size == sizeof (p4est_topidx_t) && p->tets->elem_count == 4 * m.t.size (), "%s: wrong sizes", ctx);
  for (size_t i = 0; i < 3 * m.x.size (); ++i) CHECK (((double *) p->nodes->array)[i] == m.x[i / 3][i % 3], "%s: coordinate %zu of node %zu is %.17g, expected %.17g", ctx, i % 3, i / 3, ((double *) p->nodes->array)[i], m.x[i / 3][i % 3]);
  for (size_t i = 0; i < 4 * m.t.size (); ++i) CHECK (((p4est_topidx_t *) p->tets->array)[i] == m.t[i / 4][i % 4], "%s: node %zu of tet %zu is %d, expected %d", ctx, i % 4, i / 4, ((p4est_topidx_t *) p->tets->array)[i], m.t[i / 4][i % 4]);
  CHECK (!!p->tet_attributes == m.hasattr, "%s: attributes %s", ctx, m.hasattr ? "lost" : "invented");
  if (m.hasattr) for (size_t i = 0; i < m.t.size (); ++i) CHECK (((int *) p->tet_attributes->array)[i] == m.attr[i], "%s: attribute of tet %zu is %d, expected %d", ctx, i, ((int *) p->tet_attributes->array)[i], m.attr[i]);
}
static void convert (const Tets & m, p8est_tets_t * p, bool right) {
  p8est_connectivity_t *c = p8est_connectivity_new_tets (p);
  CHECK (c != NULL && p8est_connectivity_is_valid (c), "no valid connectivity");
  same (m, p, "mesh after conversion");
  Conn k; k.from (c); k.finish ();
  CHECK (k.nt == (int) (4 * m.t.size ()), "%d trees for %zu tets", k.nt, m.t.size ());
  /* vertices: unique numbers for the corners, edges, faces and volumes; the volume key carries its tet */
  std::map<std::vector<int>, int> num; std::map<int, std::vector<int>> rev;
  std::set<std::vector<int>> kinds;
  for (size_t i = 0; i < m.t.size (); ++i) {
    std::set<int> corners;
    for (int j = 0; j < 4; ++j) {
      const p4est_topidx_t *v = &k.ttv[(4 * i + j) * 8];
      /* the corner of the tet that this tree is at: the single node among the vertices by position */
      std::vector<std::pair<std::vector<int>, std::array<double, 3>>> cand;
      auto key = [&] (int s) { std::vector<int> r; for (int q = 0; q < 4; ++q) if ((s >> q) & 1) r.push_back (m.t[i][q]); std::sort (r.begin (), r.end ()); if (s == 15) r.push_back (-1 - (int) i); return r; };
      auto pos = [&] (int s) { std::array<double, 3> r { { 0, 0, 0 } }; int n = __builtin_popcount (s); for (int q = 0; q < 4; ++q) if ((s >> q) & 1) for (int d = 0; d < 3; ++d) r[d] += m.x[m.t[i][q]][d]; for (auto & z : r) z /= n; return r; };
      int sub[8], node = -1;
      for (int q = 0; q < 8; ++q) {
        int found = -1, nf = 0;
        CHECK (v[q] >= 0 && v[q] < k.nv, "tree %zu: vertex %d out of range", 4 * i + j, q);
        for (int s = 1; s < 16; ++s) { auto x = pos (s); bool eq = true; for (int d = 0; d < 3; ++d) eq = eq && std::fabs (k.vertices[3 * v[q] + d] - x[d]) < 1e-9; if (eq) { ++nf; found = s; } }
        CHECK (nf, "tree %zu: vertex %d at (%g %g %g) is not a midpoint of tet %zu", 4 * i + j, q, k.vertices[3 * v[q]], k.vertices[3 * v[q] + 1], k.vertices[3 * v[q] + 2], i);
        if (nf > 1) internal ("degenerate tet");
        sub[q] = found;
        if (__builtin_popcount (found) == 1) { CHECK (node < 0, "tree %zu has two corners of the tet", 4 * i + j); node = q; }
        auto kk = key (found);
        auto r = num.insert ({ kk, v[q] }); CHECK (r.first->second == v[q], "vertex %d of tree %zu has number %d, the same point is %d elsewhere", q, 4 * i + j, v[q], r.first->second);
        auto w = rev.insert ({ v[q], kk }); CHECK (w.first->second == kk, "vertex number %d stands for two points", v[q]);
      }
      CHECK (node >= 0, "tree %zu contains no corner of the tet", 4 * i + j);
      CHECK (corners.insert (sub[node]).second, "two trees of tet %zu at one corner", i);
      /* the cube of subsets that contain the node */
      for (int a = 0; a < 3; ++a) CHECK (__builtin_popcount (sub[node ^ (1 << a)]) == 2 && (sub[node ^ (1 << a)] & sub[node]), "tree %zu is not a cube: edge %d of its tet corner", 4 * i + j, a);
      for (int q = 0; q < 8; ++q) { int u = sub[node]; for (int a = 0; a < 3; ++a) if (((q ^ node) >> a) & 1) u |= sub[node ^ (1 << a)]; CHECK (u == sub[q], "tree %zu is not a cube: corner %d", 4 * i + j, q); }
      if (right && !m.abstract) for (int q = 0; q < 8; ++q) {
        double e[3][3];
        for (int a = 0; a < 3; ++a) for (int d = 0; d < 3; ++d) e[a][d] = (k.vertices[3 * v[q ^ (1 << a)] + d] - k.vertices[3 * v[q] + d]) * ((q >> a) & 1 ? -1 : 1);
        double D = e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]);
        CHECK (D > 0, "tree %zu is not right-handed at corner %d", 4 * i + j, q);
      }
      if (m.hasattr) CHECK (c->tree_attr_bytes == 1 && c->tree_to_attr[4 * i + j] == (char) (int8_t) m.attr[i], "tree %zu has attribute %d, expected %d", 4 * i + j, c->tree_to_attr ? c->tree_to_attr[4 * i + j] : -999, (int) (int8_t) m.attr[i]);
    }
  }
  if (!m.hasattr) CHECK (c->tree_attr_bytes == 0 && c->tree_to_attr == NULL, "attributes invented");
  VMesh vm; vm.nv = k.nv; vm.nt = k.nt; vm.v = k.vertices; vm.ttv = k.ttv;
  check_vmesh (vm, k, "converted mesh");
  p8est_connectivity_destroy (c);
}
struct Tok { std::string s; bool end; };
static void put (const std::string & name, const std::vector<Tok> & t) {
  FILE *f = fopen (name.c_str (), "wb"); if (!f) internal ("file");
  for (auto & x : t) fprintf (f, "%s%s", x.s.c_str (), x.end ? "\n" : "  ");
  fclose (f);
}
void prop () {
  MemMark mm = mem_mark ();
  Tets m = draw_tets ();
  label (m.abstract ? "closed grid" : "grid");
  if (m.t.size () > 1) nontrivial ();
  describe ("%zu tets, %zu nodes%s; ", m.t.size (), m.x.size (), m.hasattr ? ", attributes" : "");
  int mode = weighted ({ 40, 30, 30 });
  if (mode == 0) {                      /* memory */
    p8est_tets_t *p = make (m);
    Tets w = m; bool right = true;
    if (!m.abstract) {
      int which = weighted ({ 50, 25, 25 }); int flips = 0;
      for (auto & t : w.t) if (which == 2 || (which == 0 && draw (2))) { int a = (int) draw (4), b = (a + 1 + (int) draw (3)) % 4; std::swap (t[a], t[b]); ++flips; }
      p8est_tets_destroy (p); p = make (w);
      if (which == 2 && chance (40)) { right = false; label ("left-handed"); }
      else {
        int got = p8est_tets_make_righthanded (p);
        CHECK (got == flips, "%d tets were flipped, %d were left-handed", got, flips);
        for (size_t i = 0; i < w.t.size (); ++i) {
          p4est_topidx_t *q = (p4est_topidx_t *) p->tets->array + 4 * i; std::array<int, 4> n { { q[0], q[1], q[2], q[3] } };
          auto x = n, y = w.t[i];
          if (det (w, w.t[i]) >= 0) CHECK (n == w.t[i], "right-handed tet %zu was changed", i);
          std::sort (x.begin (), x.end ()); std::sort (y.begin (), y.end ()); CHECK (x == y, "tet %zu lost its nodes", i);
          CHECK (det (w, n) > 0, "tet %zu is still left-handed", i);
          w.t[i] = n;
        }
        same (w, p, "repaired mesh");
        CHECK (p8est_tets_make_righthanded (p) == 0, "a second repair flips again");
        label ("repaired");
      }
    }
    convert (w, p, right);
    p8est_tets_destroy (p);
  }
  else {
    bool fine = draw (2); int nat = weighted ({ 60, 20, 20 }), bm = (int) draw (2);
    if (fine && !m.abstract) for (auto & x : m.x) for (auto & z : x) z += (double) (i64) draw (1000) * 1e-4;
    std::vector<Tok> nd, el; std::vector<size_t> hn, he, opt;  /* opt: optional values at the end of the node file */
    auto num = [&] (double d) { char s[64]; int k = (int) draw (3); snprintf (s, sizeof s, k == 0 ? "%.17g" : k == 1 ? "%.17e" : "%+.17g", d); return std::string (s); };
    nd = { { std::to_string (m.x.size ()), false }, { "3", false }, { std::to_string (nat), false }, { std::to_string (bm), true } };
    for (size_t i = 0; i < m.x.size (); ++i) {
      nd.push_back ({ std::to_string (i), false });
      for (int d = 0; d < 3; ++d) nd.push_back ({ num (m.x[i][d]), d == 2 && !nat && !bm });
      for (int a = 0; a < nat; ++a) nd.push_back ({ num ((double) draw (100) / 7), a == nat - 1 && !bm });
      if (bm) nd.push_back ({ std::to_string ((int) draw (5) - 1), true });
    }
    el = { { std::to_string (m.t.size ()), false }, { "4", false }, { m.hasattr ? "1" : "0", true } };
    for (size_t i = 0; i < m.t.size (); ++i) {
      el.push_back ({ std::to_string (i), false });
      for (int d = 0; d < 4; ++d) el.push_back ({ std::to_string (m.t[i][d]), d == 3 && !m.hasattr });
      if (m.hasattr) el.push_back ({ std::to_string (m.attr[i]), true });
    }
    std::string base = "mesh.tet";
    bool bad = mode == 2, readable = true; std::string what;
    if (bad) {
      int per = 4 + nat + bm, pe = 5 + m.hasattr;
      size_t i = draw (m.x.size ()), j = draw (m.t.size ());
      auto other = [&] (size_t i, size_t n) { long r = (long) draw (n + 2) - 1; return std::to_string (r == (long) i || chance (30) ? (long) i + 1 : chance (30) ? (long) i - 1 : r); };
      switch (weighted ({ 14, 14, 10, 10, 10, 12, 10, 10, 10 })) {
      case 0: { size_t k = draw (nd.size ()); nd.resize (k); what = "node file cut"; break; }
      case 1: { size_t k = draw (el.size ()); el.resize (k); what = "element file cut"; break; }
      case 2: nd[1].s = pick (std::vector<std::string> { "2", "4", "0", "x" }); what = "dimension"; break;
      case 3: el[1].s = pick (std::vector<std::string> { "10", "3", "5", "x" }); what = "nodes per tet"; break;
      case 4: nd[4 + i * per].s = other (i, m.x.size ()); what = "node number"; break;
      case 5: el[3 + j * pe + 1 + draw (4)].s = std::to_string ((long) m.x.size () + (long) draw (2) * 5); what = "node out of range"; break;
      case 6: el[3 + j * pe + 1 + draw (4)].s = "-1"; what = "negative node"; break;
      case 7: el[3 + j * pe].s = other (j, m.t.size ()); what = "tet number"; break;
      default: if (draw (2)) nd[0].s = "-1"; else el[0].s = "-3"; what = "negative count"; break;
      }
      readable = false;
      label ("bad file"); describe ("%s; ", what.c_str ());
    }
    bool lone = !bad && chance (10), lele = lone && draw (2);
    put (base + ".node", nd); put (base + ".ele", el);
    if (lone) { unlink ((base + (lele ? ".node" : ".ele")).c_str ()); readable = false; }
    p8est_tets_t *p = p8est_tets_read (base.c_str ());
    if (!readable) CHECK (p == NULL, "an invalid file was read (%s)", lone ? "missing" : what.c_str ());
    else {
      label ("file"); same (m, p, "read mesh");
      convert (m, p, !fine);
      p8est_tets_destroy (p);
      /* the parts */
      sc_array_t *n = p8est_tets_read_node ((base + ".node").c_str ()), *a = (sc_array_t *) 8, *e = p8est_tets_read_ele ((base + ".ele").c_str (), draw (2) ? -1 : (int) m.x.size (), draw (2) ? &a : NULL);
      CHECK (n && e, "parts were not read");
      p8est_tets_t q { n, e, NULL };
      Tets w = m; w.hasattr = a != (sc_array_t *) 8 && a != NULL; q.tet_attributes = w.hasattr ? a : NULL;
      if (a != (sc_array_t *) 8) CHECK (!!a == m.hasattr, "attributes");
      same (w, &q, "parts");
      sc_array_destroy (n); sc_array_destroy (e); if (w.hasattr) sc_array_destroy (a);
    }
    unlink ((base + ".node").c_str ()); unlink ((base + ".ele").c_str ());
  }
  mem_check (mm, "after conversion");
}
}
