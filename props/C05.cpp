/* Uniform refinement of a coarse mesh */
#include "conn_common.h"
#include <cmath>
namespace DNS {
using namespace eng;
typedef p4est_connectivity_t C;
/* the refined mesh: cell of tree t at integer position x */
struct Fine {
  const Conn & k; int n, N;
  std::vector<std::array<int, 3>> cell;         /* order within a tree */
  std::map<std::array<int, 3>, int> at;
  Fine (const Conn & c, int num) : k (c), n (num), N (1) {
    for (int i = 0; i < DIM; ++i) N *= n;
    int b = 0; while ((1 << b) < n) ++b;
    for (int j = 0; j < 1 << (DIM * b); ++j) {
      std::array<int, 3> x { 0, 0, 0 }; bool in = true;
      for (int i = 0; i < b; ++i) for (int a = 0; a < DIM; ++a) x[a] |= ((j >> (i * DIM + a)) & 1) << i;
      for (int a = 0; a < DIM; ++a) in &= x[a] < n;
      if (in) { at[x] = (int) cell.size (); cell.push_back (x); }
    }
    if ((int) cell.size () != N) eng::internal ("cells");
  }
};
void prop () {
  MemMark mm = mem_mark ();
  Conn k = draw_conn (DIM == 2 ? 14 : 8, true);
  int n = DIM == 2 ? range (1, k.nt <= 4 ? 9 : 5) : range (1, k.nt <= 2 ? 4 : 3);
  describe ("%s, %d trees, %d per dimension; ", k.name.c_str (), k.nt, n);
  if (chance (40)) for (auto & v : k.vertices) v += (double) (i64) draw (100) / 64.;
  Fine f (k, n);
  /* points of the refined mesh: scaled to a tree of length 2n to keep them even */
  std::map<std::pair<int, Pt>, int> id; int nv = 0;
  VMesh m; m.nt = k.nt * f.N; m.ttv.resize ((size_t) m.nt * NCH);
  std::vector<std::vector<std::array<double, 3>>> where;     /* admissible coordinates of each vertex */
  auto interp = [&] (int t, const Pt & p) {
    std::array<double, 3> r { 0, 0, 0 };
    for (int q = 0; q < NCH; ++q) { double w = 1; for (int a = 0; a < DIM; ++a) { double e = (double) p.x[a] / n; w *= (q >> a) & 1 ? e : 1 - e; } for (int i = 0; i < 3; ++i) r[i] += w * k.vertices[3 * k.ttv[t * NCH + q] + i]; }
    return r;
  };
  /* identification of lattice points through the stored topology; needs a lattice length that face maps preserve */
  auto cls = [&] (int t, const Pt & p) {
    std::vector<std::pair<int, Pt>> todo { { t, p } }, out; std::set<std::pair<int, Pt>> seen { { t, p } };
    while (!todo.empty ()) {
      auto e = todo.back (); todo.pop_back (); out.push_back (e);
      auto add = [&] (int nt, const Pt & x) { if (seen.insert ({ nt, x }).second) todo.push_back ({ nt, x }); };
      for (int g = 0; g < NF; ++g) {
        if (e.second.x[g / 2] != (g % 2 ? n : 0)) continue;
        const FaceMap & fm = k.fmap[e.first * NF + g]; if (fm.boundary) continue;
        Pt r; for (int a = 0; a < DIM; ++a) { int ta = fm.axis[a]; r.x[ta] = a == g / 2 ? (fm.nf % 2 ? n : 0) : fm.sign[a] > 0 ? e.second.x[a] : n - e.second.x[a]; }
        add (fm.nt, r);
      }
      if (DIM == 3 && k.ne) for (int ed = 0; ed < 12; ++ed) {
        Pt a = corner_pt (edge_corner (ed, 0)), b = corner_pt (edge_corner (ed, 1)); int ax = -1; bool on = true;
        for (int i = 0; i < 3; ++i) { if (a.x[i] != b.x[i]) ax = i; else on &= e.second.x[i] == (a.x[i] ? n : 0); }
        if (!on) continue;
        for (auto & nb : edge_class (k, e.first, ed)) {
          Pt c = corner_pt (edge_corner (nb.idx, 0)), d = corner_pt (edge_corner (nb.idx, 1)), r;
          for (int i = 0; i < 3; ++i) r.x[i] = c.x[i] != d.x[i] ? (nb.flip ? n - e.second.x[ax] : e.second.x[ax]) : (c.x[i] ? n : 0);
          add (nb.tree, r);
        }
      }
      if (k.nc) for (int q = 0; q < NCH; ++q) {
        Pt a = corner_pt (q); bool on = true; for (int i = 0; i < DIM; ++i) on &= e.second.x[i] == (a.x[i] ? n : 0);
        if (!on) continue;
        for (auto & nb : corner_class (k, e.first, q)) { Pt c = corner_pt (nb.idx), r; for (int i = 0; i < DIM; ++i) r.x[i] = c.x[i] ? n : 0; add (nb.tree, r); }
      }
    }
    return out;
  };
  for (int t = 0; t < k.nt; ++t) for (int c = 0; c < f.N; ++c) for (int q = 0; q < NCH; ++q) {
    Pt p; for (int a = 0; a < DIM; ++a) p.x[a] = f.cell[c][a] + ((q >> a) & 1);
    auto key = std::make_pair (t, p);
    if (!id.count (key)) { where.emplace_back (); for (auto & e : cls (t, p)) { id[e] = nv; where[nv].push_back (interp (e.first, e.second)); } ++nv; }
    m.ttv[(size_t) (t * f.N + c) * NCH + q] = id[key];
  }
  m.nv = nv;
  /* the true neighbors of the cells */
  std::vector<int> want ((size_t) m.nt * NF, -1);
  for (int t = 0; t < k.nt; ++t) for (int c = 0; c < f.N; ++c) for (int g = 0; g < NF; ++g) {
    auto x = f.cell[c]; int a = g / 2, &w = want[(size_t) (t * f.N + c) * NF + g];
    x[a] += g % 2 ? 1 : -1;
    if (x[a] >= 0 && x[a] < n) { w = (t * f.N + f.at[x]) * NF + (g ^ 1); continue; }
    const FaceMap & fm = k.fmap[t * NF + g]; if (fm.boundary) continue;
    std::array<int, 3> y { 0, 0, 0 };
    for (int b = 0; b < DIM; ++b) { int ta = fm.axis[b]; y[ta] = b == a ? (fm.nf % 2 ? n - 1 : 0) : fm.sign[b] > 0 ? f.cell[c][b] : n - 1 - f.cell[c][b]; }
    w = (fm.nt * f.N + f.at[y]) * NF + fm.nf;
  }
  /* known finding: cells that their vertices do not tell apart */
  std::vector<int> nb;
  if (!vmesh_ok (m, &nb) || nb != want) { label ("known finding: vertices do not determine the refined mesh"); discard (); }
  Closure truth = vmesh_closure (m);
  if (n > 1 && k.nt > 1) nontrivial ();
  label (n == 1 ? "unrefined" : "refined");
  sim::Config cfg = draw_sim (3); sim::Report rep;
  sim::run (cfg, [&] (int r) {
    C *c = k.make ();
    C *o = p4est_connectivity_refine (c, n);
    CHECK (k.same_as (c), "the input is changed");
    CHECK (p4est_connectivity_is_valid (o), "the result is not valid");
    Conn g; g.from (o); g.name = "refined";
    CHECK (g.nt == m.nt, "%d trees, expected %d", g.nt, m.nt);
    CHECK (g.nv == nv, "%d vertices, expected %d", g.nv, nv);
    /* vertices are renumbered */
    std::vector<int> to (nv, -1), from (nv, -1);
    for (size_t i = 0; i < m.ttv.size (); ++i) {
      int a = g.ttv[i], b = m.ttv[i];
      CHECK (a >= 0 && a < nv && (to[a] < 0 || to[a] == b) && (from[b] < 0 || from[b] == a), "tree %zu corner %zu has vertex %d, which is not the same point everywhere", i / NCH, i % NCH, a);
      to[a] = b; from[b] = a;
    }
    for (int i = 0; i < nv; ++i) {
      bool ok = false; const double *v = &g.vertices[3 * i];
      for (auto & w : where[to[i]]) ok |= std::fabs (v[0] - w[0]) + std::fabs (v[1] - w[1]) + std::fabs (v[2] - w[2]) < 1e-9 * (1 + std::fabs (w[0]) + std::fabs (w[1]) + std::fabs (w[2]));
      CHECK (ok, "vertex %d is at (%g, %g, %g), expected (%g, %g, %g)", i, v[0], v[1], v[2], where[to[i]][0][0], where[to[i]][0][1], where[to[i]][0][2]);
    }
    for (int i = 0; i < m.nt * NF; ++i) {
      int got = g.fmap[i].boundary ? -1 : g.ttt[i] * NF + g.ttf[i] % NF;
      CHECK (got == want[i], "face %d of tree %d meets %d/%d, expected %d/%d", i % NF, i / NF, got < 0 ? -1 : got / NF, got < 0 ? -1 : got % NF, want[i] < 0 ? -1 : want[i] / NF, want[i] < 0 ? -1 : want[i] % NF);
      if (got >= 0) for (int j = 0; j < HALF; ++j) { int q = face_corner (i % NF, j), d = corner_across (g, i / NF, i % NF, q); CHECK (m.ttv[(size_t) i / NF * NCH + q] == m.ttv[(size_t) got / NF * NCH + d], "face %d of tree %d: orientation", i % NF, i / NF); }
    }
    bool und = false; std::string why; CHECK (tables_valid (g, &und, &why), "%s", why.c_str ());
    if (r == 0 && m.nt <= 300) check_topology (g, truth, "refined");
    checks (m.nt * (NF + NCH));
    p4est_connectivity_destroy (o); p4est_connectivity_destroy (c);
  }, &rep);
  mem_check (mm, "at the end");
}
}
