/* Coarse meshes: provided ones, completed, reduced, permuted, joined, compared, corrupted */
#include "conn_common.h"
namespace DNS {
using namespace eng;
typedef p4est_connectivity_t C;
static Conn grab (const C * c, const char *name) { Conn k; k.from (c); k.name = name; return k; }
static C *provided (std::string & name, bool & faithful, bool & expect_null) {
  expect_null = faithful = false;
  int kind = weighted ({ 40, 25, 20, 15 });
  char b[80];
  if (kind == 0) {
#if VDIM == 2
    static const char *n[] = { "unit", "brick23", "corner", "cubed", "disk", "moebius", "periodic", "pillow", "rotwrap", "star", "shell2d", "disk2d", "bowtie", "icosahedron", "sphere2d", "nonsense" };
    static const char *faith = " unit brick23 corner moebius star cubed disk pillow bowtie ";
#else
    static const char *n[] = { "unit", "brick235", "periodic", "rotwrap", "drop", "twocubes", "twowrap", "rotcubes", "shell", "sphere", "torus", "pillow", "bowtie", "edge", "unitcube", "nonsense" };
    static const char *faith = " unit brick235 twocubes rotcubes ";
#endif
    name = n[draw (16)];
    faithful = strstr (faith, (" " + name + " ").c_str ()) != nullptr;
    C *c = p4est_connectivity_new_byname (name.c_str ());
    expect_null = c == nullptr;
    return c;
  }
  if (kind == 1) {
    int m = range (1, 5), n = range (1, 5), k = range (1, 4), p[3] = { (int) draw (2), (int) draw (2), (int) draw (2) };
    if (DIM == 2) k = 1;
    snprintf (b, sizeof b, "brick(%d,%d,%d;%d%d%d)", m, n, k, p[0], p[1], p[2]);
    name = b; faithful = !p[0] && !p[1] && (DIM == 2 || !p[2]);
#if VDIM == 2
    C *c = p4est_connectivity_new_brick (m, n, p[0], p[1]);
#else
    C *c = p8est_connectivity_new_brick (m, n, k, p[0], p[1], p[2]);
#endif
    /* every unit cube of the brick once, glued to its neighbors in order */
    int s[3] = { m, n, k }; std::map<std::array<int, 3>, int> at;
    CHECK (c->num_trees == m * n * k && c->num_vertices == (m + 1) * (n + 1) * (DIM == 3 ? k + 1 : 1), "%s has %d trees and %d vertices", b, (int) c->num_trees, (int) c->num_vertices);
    auto vert = [&] (int t, int q) { std::array<int, 3> x; for (int a = 0; a < 3; ++a) x[a] = (int) c->vertices[3 * c->tree_to_vertex[t * NCH + q] + a]; return x; };
    for (int t = 0; t < c->num_trees; ++t) {
      auto x = vert (t, 0); at[x] = t;
      for (int a = 0; a < DIM; ++a) CHECK (x[a] >= 0 && x[a] < s[a], "%s: tree %d is outside", b, t);
      for (int q = 0; q < NCH; ++q) { auto y = x; for (int a = 0; a < DIM; ++a) y[a] += (q >> a) & 1; CHECK (vert (t, q) == y, "%s: corner %d of tree %d", b, q, t); }
    }
    CHECK ((int) at.size () == c->num_trees, "%s: a cube appears twice", b);
    for (auto & e : at) for (int f = 0; f < NF; ++f) {
      auto y = e.first; int a = f / 2, t = e.second, w, wf = f ^ 1; y[a] += f % 2 ? 1 : -1;
      if (y[a] < 0 || y[a] >= s[a]) { if (p[a]) { y[a] = (y[a] + s[a]) % s[a]; w = at[y]; } else { w = t; wf = f; } } else w = at[y];
      CHECK (c->tree_to_tree[t * NF + f] == w && c->tree_to_face[t * NF + f] == wf, "%s: face %d of tree %d meets face code %d of tree %d, expected %d of %d", b, f, t, c->tree_to_face[t * NF + f], (int) c->tree_to_tree[t * NF + f], wf, w);
    }
    return c;
  }
  if (kind == 2) {
    int l = (int) draw (NF), r = (int) draw (NF), o = (int) draw (HALF);
    snprintf (b, sizeof b, "twotrees(%d,%d,%d)", l, r, o);
    name = b; faithful = true;
    C *c = p4est_connectivity_new_twotrees (l, r, o);
    for (int t = 0; t < 2; ++t) for (int f = 0; f < NF; ++f) {
      int g = f == (t ? r : l);
      CHECK (c->tree_to_tree[t * NF + f] == (g ? 1 - t : t) && c->tree_to_face[t * NF + f] == (g ? (t ? l : r) + NF * o : f), "%s: face %d of tree %d meets face code %d of tree %d", b, f, t, c->tree_to_face[t * NF + f], (int) c->tree_to_tree[t * NF + f]);
    }
    return c;
  }
#if VDIM == 2
  switch (draw (7)) {
  case 0: name = "circle"; faithful = true; return p4est_connectivity_new_circle ();
  case 1: name = "drop"; faithful = true; return p4est_connectivity_new_drop ();
  case 2: { int a = (int) draw (2), p = (int) draw (2); name = "disk" + std::to_string (a) + std::to_string (p); faithful = !a && !p; return p4est_connectivity_new_disk (a, p); }
  case 3: name = "disk_nonperiodic"; faithful = true; return p4est_connectivity_new_disk_nonperiodic ();
  case 4: name = "icosahedron"; return p4est_connectivity_new_icosahedron ();
  case 5: name = "shell2d"; return p4est_connectivity_new_shell2d ();
  default: name = "disk2d"; return p4est_connectivity_new_disk2d ();
  }
#else
  switch (draw (5)) {
  case 0: { int s = range (1, 9); name = "torus" + std::to_string (s); return p8est_connectivity_new_torus (s); }
  case 1: name = "drop"; faithful = true; return p8est_connectivity_new_drop ();
  case 2: name = "shell"; return p8est_connectivity_new_shell ();
  case 3: name = "sphere"; return p8est_connectivity_new_sphere ();
  default: name = "twowrap"; return p8est_connectivity_new_twowrap ();
  }
#endif
}
/* classes in a form that does not depend on numbering */
struct Canon { std::vector<p4est_topidx_t> ttt; std::vector<int8_t> ttf; std::set<std::vector<Nb>> e, c; bool operator== (const Canon & o) const { return ttt == o.ttt && ttf == o.ttf && e == o.e && c == o.c; } };
static Canon canon (const Conn & k) {
  Canon r; r.ttt = k.ttt; r.ttf = k.ttf;
  for (auto & cl : k.edges) { std::vector<Nb> v; for (auto & m : cl) v.push_back ({ m.tree, m.idx, m.o }); std::sort (v.begin (), v.end ()); if (!v.empty () && v[0].flip) { for (auto & m : v) m.flip ^= 1; std::sort (v.begin (), v.end ()); } r.e.insert (v); }
  for (auto & cl : k.corners) { std::vector<Nb> v; for (auto & m : cl) v.push_back ({ m.tree, m.idx, 0 }); std::sort (v.begin (), v.end ()); r.c.insert (v); }
  return r;
}
/* what the vertices of a provided mesh look like, tree by tree: unit squares or cubes, or at least not degenerate and of one orientation */
static void check_shape (const Conn & k, const std::string & name) {
  auto in = [&] (const char *list) { size_t l = name.find_first_of ("0123456789("); std::string n = " " + name.substr (0, l) + " "; return strstr (list, n.c_str ()) != nullptr; };
#if VDIM == 2
  bool unit = in (" unit brick cubed periodic pillow rotwrap ") || name == "shell2d", positive = name != "cubed" && !in (" moebius pillow star twotrees ");
#else
  bool unit = in (" unit unitcube brick periodic rotwrap twocubes twowrap pillow shell "), positive = !in (" twotrees ");
#endif
  std::set<int> used;
  for (int t = 0; t < k.nt; ++t) for (int q = 0; q < NCH; ++q) {
    int v = k.ttv[t * NCH + q]; double e[3][3] = { { 0 } };
    used.insert (v);
    for (int r = 0; r < q; ++r) CHECK (k.ttv[t * NCH + r] != v, "%s: corners %d and %d of tree %d are one vertex", name.c_str (), r, q, t);
    for (int a = 0; a < DIM; ++a) { int w = k.ttv[t * NCH + (q ^ (1 << a))]; for (int i = 0; i < 3; ++i) e[a][i] = (k.vertices[3 * w + i] - k.vertices[3 * v + i]) * ((q >> a) & 1 ? -1 : 1); }
    if (unit) for (int a = 0; a < DIM; ++a) for (int c = 0; c < DIM; ++c) {
      double s = 0; for (int i = 0; i < 3; ++i) s += e[a][i] * e[c][i];
      CHECK (fabs (s - (a == c)) < 1e-9, "%s: tree %d is not a unit cube at corner %d", name.c_str (), t, q);
    }
    if (DIM == 2) e[2][2] = 1;
    double det = e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]);
    if (positive) CHECK (det > 1e-3, "%s: tree %d is degenerate or left handed at corner %d: %g", name.c_str (), t, q, det);
  }
  CHECK ((int) used.size () == k.nv, "%s: %d of %d vertices are used", name.c_str (), (int) used.size (), (int) k.nv);
}
static void check_provided (const Conn & k, const char *ctx) {
  bool und = false; std::string why;
  CHECK (tables_valid (k, &und, &why), "%s: %s", ctx, why.c_str ());
  Closure cl (k.nt); cl.add (k);
  CHECK (!cl.e.conflict, "%s: an edge is identified with itself in reverse", ctx);
  check_topology (k, cl, ctx);
}
void mode_provided () {
  std::string name; bool faithful, null;
  C *c = provided (name, faithful, null);
  describe ("provided %s; ", name.c_str ());
  if (null) {
    static const char *doc = DIM == 2 ? " brick23 corner cubed disk moebius periodic pillow rotwrap star unit " : " brick235 periodic rotcubes rotwrap shell sphere twocubes twowrap unit ";
    CHECK (!strstr (doc, (" " + name + " ").c_str ()), "%s is not known", name.c_str ());
    return;
  }
  CHECK (name != "nonsense", "an unknown name is accepted");
  CHECK (p4est_connectivity_is_valid (c), "%s is not valid", name.c_str ());
  Conn k = grab (c, name.c_str ());
  check_provided (k, name.c_str ());
  check_shape (k, name);
  if (k.nt > 1) nontrivial ();
  label ("provided");
  checks (k.nt * (NCH + NE + NF));
  C *d = p4est_connectivity_copy (c, 0);
  CHECK (p4est_connectivity_is_equal (c, d) && p4est_connectivity_is_equivalent (c, d), "%s: a copy is not equal", name.c_str ());
  p4est_connectivity_reduce (d);
  CHECK (p4est_connectivity_is_valid (d), "%s: reduced is not valid", name.c_str ());
  Conn r = grab (d, "reduced");
  CHECK (r.ne == 0 && r.nc == 0 && r.ttt == k.ttt && r.ttf == k.ttf && r.ttv == k.ttv && r.vertices == k.vertices, "%s: reduce changed something else", name.c_str ());
  bool any = false;
  for (int t = 0; t < k.nt; ++t) { for (int q = 0; q < NCH; ++q) any |= !true_corners (k, t, q).empty (); if (DIM == 3) for (int e = 0; e < 12; ++e) any |= !true_edges (k, t, e).empty (); }
  CHECK (!!p4est_connectivity_is_equivalent (c, d) == !any, "%s: is_equivalent with the reduced mesh is %d", name.c_str (), any);
  CHECK (!!p4est_connectivity_is_equivalent (d, c) == !any, "%s: is_equivalent of the reduced mesh is %d", name.c_str (), any);
  if (faithful) {
    /* the vertices imply the mesh */
    label ("reduced and completed");
    VMesh m; m.nv = k.nv; m.nt = k.nt; m.v = k.vertices; m.ttv = k.ttv;
    CHECK (vmesh_ok (m), "%s: not determined by its vertices", name.c_str ());
    check_vmesh (m, k, name.c_str ());
    p4est_connectivity_complete (d);
    Conn q = grab (d, "completed");
    check_vmesh (m, q, "reduced and completed");
    CHECK (p4est_connectivity_is_equivalent (c, d), "%s: reduced and completed is not equivalent", name.c_str ());
  }
  p4est_connectivity_destroy (d); p4est_connectivity_destroy (c);
}
void mode_complete () {
  VMesh m = draw_vmesh ();
  describe ("complete %d cells, %d vertices%s; ", m.nt, m.nv, m.merged ? ", merged" : "");
  label (m.merged ? "completion of merged vertices" : "completion");
  if (m.nt > 1) nontrivial ();
  Conn k; k.nv = m.nv; k.nt = m.nt; k.vertices = m.v; k.ttv = m.ttv; k.ett_off = k.ctt_off = { 0 };
  k.ttt.resize (m.nt * NF); k.ttf.resize (m.nt * NF);
  for (int i = 0; i < m.nt * NF; ++i) { k.ttt[i] = i / NF; k.ttf[i] = (int8_t) (i % NF); }
  if (chance (50)) {            /* previous gluing that has nothing to do with the vertices */
    label ("completion over previous gluing");
    int n = range (1, 2 * m.nt);
    for (int i = 0; i < n; ++i) {
      int a = (int) draw (m.nt * NF), b = (int) draw (m.nt * NF), o = (int) draw (HALF);
      if (a == b || k.ttt[a] != a / NF || k.ttf[a] != a % NF || k.ttt[b] != b / NF || k.ttf[b] != b % NF) continue;
      k.ttt[a] = b / NF; k.ttf[a] = (int8_t) (b % NF + NF * o); k.ttt[b] = a / NF; k.ttf[b] = (int8_t) (a % NF + NF * o);
    }
  }
  k.finish ();
  C *c = raw_conn (k);
  p4est_connectivity_complete (c);
  CHECK (p4est_connectivity_is_valid (c), "completed mesh is not valid");
  Conn r = grab (c, "completed");
  bool und = false; std::string why;
  CHECK (tables_valid (r, &und, &why), "completed mesh: %s", why.c_str ());
  check_vmesh (m, r, "completed");
  /* only identifications beyond faces (and edges) are stored */
  for (auto & cl : r.corners) { bool any = false; for (auto & x : cl) any |= !true_corners (r, x.tree, x.idx).empty (); CHECK (any, "a corner is stored that faces and edges imply"); }
  for (auto & cl : r.edges) { bool any = false; for (auto & x : cl) any |= !true_edges (r, x.tree, x.idx).empty (); CHECK (any, "an edge is stored that faces imply"); }
  checks (m.nt * (NCH + NE + NF));
  p4est_connectivity_destroy (c);
}
void mode_permute () {
  Conn k = draw_conn (40);
  std::vector<size_t> to (k.nt), from (k.nt);
  for (int i = 0; i < k.nt; ++i) to[i] = i;
  for (int i = k.nt; i > 1; --i) std::swap (to[i - 1], to[draw (i)]);
  for (int i = 0; i < k.nt; ++i) from[to[i]] = i;
  bool c2n = chance (50);
  describe ("permute %s %d trees %s; ", k.name.c_str (), k.nt, c2n ? "current to new" : "new to current");
  bool moved = false; for (int i = 0; i < k.nt; ++i) moved |= to[i] != (size_t) i;
  if (moved) nontrivial ();
  label ("permutation");
  C *c = k.make ();
  sc_array_t *p = sc_array_new_count (sizeof (size_t), k.nt);
  memcpy (p->array, c2n ? to.data () : from.data (), k.nt * sizeof (size_t));
  p4est_connectivity_permute (c, p, c2n);
  CHECK (!memcmp (p->array, c2n ? to.data () : from.data (), k.nt * sizeof (size_t)), "permute changed the permutation");
  CHECK (p4est_connectivity_is_valid (c), "permuted mesh is not valid");
  Conn w = k;
  for (int t = 0; t < k.nt; ++t) {
    int n = (int) to[t];
    if (k.nv) for (int i = 0; i < NCH; ++i) w.ttv[n * NCH + i] = k.ttv[t * NCH + i];
    for (int f = 0; f < NF; ++f) { w.ttt[n * NF + f] = (p4est_topidx_t) to[k.ttt[t * NF + f]]; w.ttf[n * NF + f] = k.ttf[t * NF + f]; }
    if (k.ne) for (int e = 0; e < 12; ++e) w.tte[n * 12 + e] = k.tte[t * 12 + e];
    if (k.nc) for (int e = 0; e < NCH; ++e) w.ttc[n * NCH + e] = k.ttc[t * NCH + e];
  }
  for (auto & x : w.ett) x = (p4est_topidx_t) to[x];
  for (auto & x : w.ctt) x = (p4est_topidx_t) to[x];
  w.finish ();
  Conn g = grab (c, "permuted");
  CHECK (canon (g) == canon (w), "permuted mesh is not a renumbering");
  CHECK (g.vertices == w.vertices && g.ttv == w.ttv, "permuted mesh has other vertices");
  bool und = false; std::string why; CHECK (tables_valid (g, &und, &why), "permuted: %s", why.c_str ());
  checks (k.nt * (NCH + NE + NF));
  sc_array_destroy (p); p4est_connectivity_destroy (c);
}
void mode_join () {
  Conn k = draw_conn (12);
  C *c = k.make ();
  int n = range (1, 5), done = 0;
  describe ("join in %s (%d trees):", k.name.c_str (), k.nt);
  for (int i = 0; i < n; ++i) {
    std::vector<int> bnd;
    for (int j = 0; j < k.nt * NF; ++j) if (k.fmap[j].boundary) bnd.push_back (j);
    if (bnd.size () < 2) break;
    int a = (int) draw (bnd.size ()), b = (int) draw (bnd.size () - 1), o = (int) draw (HALF);
    if (b >= a) ++b;
    a = bnd[a]; b = bnd[b];
    Conn w = k;
    w.ttt[a] = b / NF; w.ttf[a] = (int8_t) (b % NF + NF * o); w.ttt[b] = a / NF; w.ttf[b] = (int8_t) (a % NF + NF * o);
    w.finish ();
    Closure cl (k.nt); cl.add (w);
    if (cl.e.conflict) continue;
    describe (" t%d/%d-t%d/%d(%d)", a / NF, a % NF, b / NF, b % NF, o);
    p4est_connectivity_join_faces (c, a / NF, b / NF, a % NF, b % NF, o);
    CHECK (p4est_connectivity_is_valid (c), "joined mesh is not valid");
    Conn g = grab (c, "joined");
    CHECK (g.ttt == w.ttt && g.ttf == w.ttf, "join_faces: wrong face neighbors");
    CHECK (g.ttv == w.ttv && g.vertices == w.vertices, "join_faces changed vertices");
    bool und = false; std::string why; CHECK (tables_valid (g, &und, &why), "joined mesh: %s", why.c_str ());
    check_topology (g, cl, "joined");
    k = g; k.name = "joined";
    ++done; checks (k.nt * (NCH + NE + NF));
  }
  describe ("; ");
  label ("join");
  if (done) nontrivial ();
  p4est_connectivity_destroy (c);
}
void mode_corrupt () {
  Conn k = draw_conn (20), m = k;
  std::string what;
  if (!mutate (m, what)) discard ();
  describe ("%s with %s; ", k.name.c_str (), what.c_str ());
  nontrivial ();
  C *a = k.make (), *c = raw_conn (m);
  bool und = false; std::string why = "consistent";
  bool ok = tables_valid (m, &und, &why);
  bool got = p4est_connectivity_is_valid (c);
  if (!ok) CHECK (!got, "p4est_connectivity_is_valid accepts %s: %s", what.c_str (), why.c_str ());
  else if (!und) CHECK (got, "p4est_connectivity_is_valid rejects %s", what.c_str ());
  label (ok ? "changed, valid" : "changed, invalid");
  CHECK (!p4est_connectivity_is_equal (a, c) && !p4est_connectivity_is_equal (c, a), "p4est_connectivity_is_equal does not see %s", what.c_str ());
  CHECK (p4est_connectivity_is_equal (c, c), "not equal to itself");
  C *b = raw_conn (m);
  CHECK (p4est_connectivity_is_equal (b, c), "equal meshes are not equal");
  p4est_connectivity_destroy (a); p4est_connectivity_destroy (b); p4est_connectivity_destroy (c);
  checks (4);
}
void mode_equivalent () {
  Conn k = draw_conn (20), m = k;
  /* renumber classes, reorder members, flip whole edges, drop vertices: equivalent */
  auto shuffle = [] (int n) { std::vector<int> p (n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n; i > 1; --i) std::swap (p[i - 1], p[draw (i)]); return p; };
  auto re = [&] (int n, std::vector<p4est_topidx_t> & tt, std::vector<p4est_topidx_t> & off, std::vector<p4est_topidx_t> & xt, std::vector<int8_t> & xx, bool edge) {
    if (!n) return;
    auto p = shuffle (n);      /* new position i holds class p[i] */
    std::vector<p4est_topidx_t> o { 0 }, t; std::vector<int8_t> x; std::vector<int> inv (n);
    for (int i = 0; i < n; ++i) {
      inv[p[i]] = i; int s = off[p[i]], l = off[p[i] + 1] - s; auto q = shuffle (l); bool fl = edge && chance (30);
      for (int j : q) { t.push_back (xt[s + j]); x.push_back ((int8_t) (fl ? (xx[s + j] + 12) % 24 : xx[s + j])); }
      o.push_back ((p4est_topidx_t) t.size ());
    }
    for (auto & v : tt) if (v >= 0) v = inv[v];
    off = o; xt = t; xx = x;
  };
  re (m.ne, m.tte, m.ett_off, m.ett, m.ete, true);
  re (m.nc, m.ttc, m.ctt_off, m.ctt, m.ctc, false);
  if (m.nv && chance (40)) { if (chance (50)) { m.nv = 0; m.vertices.clear (); m.ttv.clear (); } else m.vertices[draw (m.vertices.size ())] += 1.; }
  std::string what; bool changed = false;
  if (chance (50)) { Conn q = m; bool und = false; if (mutate (q, what) && tables_valid (q, &und) && !und) { m = q; changed = true; } }
  m.finish ();
  { Closure a (m.nt); a.add (m); if (a.e.conflict) discard (); }
  describe ("%s renumbered%s%s; ", k.name.c_str (), changed ? ", " : "", what.c_str ());
  auto topo = [] (const Conn & c) { std::vector<Nb> r; for (int t = 0; t < c.nt; ++t) { if (DIM == 3) for (int e = 0; e < 12; ++e) { auto v = true_edges (c, t, e); std::sort (v.begin (), v.end ()); r.push_back ({ -1, e, t }); r.insert (r.end (), v.begin (), v.end ()); }
    for (int q = 0; q < NCH; ++q) { auto v = true_corners (c, t, q); std::sort (v.begin (), v.end ()); r.push_back ({ -2, q, t }); r.insert (r.end (), v.begin (), v.end ()); } } return r; };
  bool want = k.ttt == m.ttt && k.ttf == m.ttf && topo (k) == topo (m);
  if (k.nc || k.ne) nontrivial ();
  label (want ? "equivalent" : "not equivalent");
  C *a = k.make (), *b = raw_conn (m);
  MemMark mm = mem_mark ();
  CHECK (!!p4est_connectivity_is_equivalent (a, b) == want && !!p4est_connectivity_is_equivalent (b, a) == want, "p4est_connectivity_is_equivalent is %d", !want);
  mem_check (mm, "p4est_connectivity_is_equivalent");
  p4est_connectivity_destroy (a); p4est_connectivity_destroy (b);
  checks (2);
}
void prop () {
  MemMark mm = mem_mark ();
  switch (weighted ({ 20, 25, 12, 25, 20, 10 })) {
  case 0: mode_provided (); break;
  case 1: mode_complete (); break;
  case 2: mode_permute (); break;
  case 3: mode_join (); break;
  case 4: mode_corrupt (); break;
  default: mode_equivalent (); break;
  }
  mem_check (mm, "at the end");
}
}
