/* Unstructured mesh data (PETSc DMPlex): every point, cone, orientation, parent, child number, coordinate and link.
   Points are identified with faces, edges and corners of the leaves and of their parents, where they hang.
   The faces of the cells come in a fixed order, and an orientation o >= 0 of a point says that the cell goes around it
   beginning with cone entry o, o < 0 that it goes backwards beginning with entry -(o + 1). */
#include "entity.h"
#include <mpi.h>
#if VDIM == 3
#include <p8est_plex.h>
#include <p8est_ghost.h>
#include <p8est_lnodes.h>
#else
#include <p4est_plex.h>
#include <p4est_ghost.h>
#include <p4est_lnodes.h>
#endif
namespace DNS {
using namespace eng;
typedef std::pair<int, std::pair<int, Pt>> PKey;        /* dimension, canonical center */
typedef p4est_locidx_t I;
struct Geo { int tree; std::vector<Pt> v; };            /* vertices in the order of the cone */
static Pt mid (const std::vector<Pt> & v) { Pt c; for (int a = 0; a < 3; ++a) { i64 s = 0; for (auto & p : v) s += p.x[a]; c.x[a] = s / (i64) v.size (); } return c; }

struct Model {
  const Built *b; EntityModel em; std::vector<std::map<int, i64>> dummy;
  std::set<PKey> split; std::map<PKey, std::vector<std::pair<int, Pt>>> reps;
  std::map<PKey, std::vector<i64>> users; std::vector<std::vector<PKey>> anchors;
  PKey key (int dim, int tree, const Pt & c) const { return PKey { dim, em.canon (tree, c) }; }
  PKey key (int tree, const Leaf & l, const Ent & e) const { return key (e.dim (), tree, EntityModel::center (l, e)); }
  void init (const Built & bb) {
    b = &bb; em.init (bb.conn, bb.forest); anchors.resize (em.leaves.size ());
    for (i64 i = 0; i < (i64) em.leaves.size (); ++i) {
      const GL & g = em.leaves[i];
      for (int x = 0; x < NENT; ++x) {
        Ent e = ent_of (x); if (e.dim () == DIM) continue;
        bool h = em.hangs (i, e);
        if (h) split.insert (key (g.tree, g.l.parent (), EntityModel::smallest (g.l, e)));
        PKey k = key (g.tree, h ? g.l.parent () : g.l, e);
        anchors[i].push_back (k); users[k].push_back (i);
      }
    }
  }
  /* the leaves in an overlap of some layers */
  std::set<i64> cells (int rank, int overlap, int codim) {
    std::set<i64> K; for (i64 i = b->cuts[rank]; i < b->cuts[rank + 1]; ++i) K.insert (i);
    for (int k = 0; k < overlap; ++k) { std::set<i64> n = K; for (i64 i : K) for (auto & a : anchors[i]) if (a.first >= DIM - codim) for (i64 j : users[a]) n.insert (j); K = n; }
    return K;
  }
  /* a face, edge or corner given by its vertices: children */
  void add (std::set<PKey> & s, const Geo & g) {
    int n = (int) g.v.size (), dim = n == 1 ? 0 : n == 2 ? 1 : 2;
    PKey k = key (dim, g.tree, mid (g.v)); s.insert (k);
    if (!split.count (k)) return;
    if (n == 2) { Pt m = mid (g.v); for (auto & x : g.v) s.insert (key (1, g.tree, mid ({ x, m }))); s.insert (key (0, g.tree, m)); }
    if (n == 4) { Pt c = mid (g.v); s.insert (key (0, g.tree, c)); for (int i = 0; i < 4; ++i) { s.insert (key (2, g.tree, mid ({ g.v[i], c }))); s.insert (key (1, g.tree, mid ({ mid ({ g.v[i], g.v[(i + 1) % 4] }), c }))); } }
  }
  static Geo geo (int tree, const Leaf & l, const Ent & e) {   /* face vertices around the face */
    Geo g; g.tree = tree; Pt b = deinterleave (l.key); i64 h = qlen (l.level); int d = e.dim ();
    static const int cyc[4] = { 0, 1, 3, 2 };
    for (int i = 0; i < 1 << d; ++i) { int z = d == 2 ? cyc[i] : i, k = 0; Pt p = b; for (int a = 0; a < DIM; ++a) p.x[a] += e.c[a] == 2 ? ((z >> k++) & 1) * h : e.c[a] * h; g.v.push_back (p); }
    return g;
  }
  std::set<PKey> expected (const std::set<i64> & K) {
    std::set<PKey> s;
    for (i64 i : K) for (int x = 0; x < NENT; ++x) {
      const GL & g = em.leaves[i]; Ent e = ent_of (x);
      if (e.dim () == DIM) { s.insert (key (g.tree, g.l, e)); continue; }
      add (s, geo (g.tree, em.hangs (i, e) ? g.l.parent () : g.l, e));
    }
    return s;
  }
};

struct Data {
  sc_array_t *a[10]; I first = -77;
  Data () { for (int i = 0; i < 10; ++i) a[i] = sc_array_new (i == 4 ? 3 * sizeof (double) : i == 9 ? 2 * sizeof (I) : sizeof (I)); }
  Data (const Data &) = delete;
  ~Data () { for (auto x : a) sc_array_destroy (x); }
  I at (int k, size_t i) const { return *(I *) sc_array_index (a[k], i); }
  size_t n (int k) const { return a[k]->elem_count; }
};
enum { DIMS = 0, SIZES, CONES, ORI, COORD, CHILD, PARENT, IDS, LEAVES, REMOTES };

struct Rank {                           /* the points of one process, identified */
  Model & m; int me; Data & D; bool custom;
  std::vector<i64> cell; size_t np = 0; I st[5]; std::vector<size_t> coff;
  std::vector<PKey> name; std::vector<char> known; std::map<PKey, I> point; std::vector<Geo> frame;
  std::vector<I> parent; std::vector<int> id; std::map<std::pair<I, int>, I> child;
  std::set<I> haschild; std::vector<I> todo;
  Rank (Model & mm, int r, Data & d, bool c) : m (mm), me (r), D (d), custom (c) { }
  int dimof (I p) const { for (int d = 0; d <= DIM; ++d) if (p >= st[d] && p < st[d] + D.at (DIMS, (size_t) d)) return d; return -1; }
  I cone (I p, int i) const { return D.at (CONES, coff[p] + (size_t) i); }
  I ori (I p, int i) const { return D.at (ORI, coff[p] + (size_t) i); }
  void call (I p, const PKey & k, const char *as) {
    CHECK (p >= 0 && p < (I) np, "process %d: %s is point %d of %zu", me, as, p, np);
    CHECK (dimof (p) == k.first, "process %d: %s is point %d of dimension %d", me, as, p, dimof (p));
    if (!known[p]) {
      auto it = point.insert ({ k, p });
      CHECK (it.second, "process %d: %s is point %d and another one refers to the same place as %d", me, as, p, it.first->second);
      known[p] = 1; name[p] = k;
      return;
    }
    CHECK (name[p] == k, "process %d: %s at tree %d (%lld %lld %lld) is point %d which is at tree %d (%lld %lld %lld)", me, as, k.second.first, (long long) k.second.second.x[0], (long long) k.second.second.x[1], (long long) k.second.second.x[2], p,
           name[p].second.first, (long long) name[p].second.second.x[0], (long long) name[p].second.second.x[1], (long long) name[p].second.second.x[2]);
  }
  /* point p is what these vertices span, in the order of its cone */
  void place (I p, const Geo & g, const char *as) {
    int n = (int) g.v.size (), dim = n == 1 ? 0 : n == 2 ? 1 : 2;
    call (p, m.key (dim, g.tree, mid (g.v)), as);
    if (dim == 1) for (int i = 0; i < 2; ++i) call (cone (p, i), m.key (0, g.tree, g.v[i]), as);
    if (dim == 2) for (int i = 0; i < 4; ++i) {
      I o = ori (p, i); CHECK (o == 0 || o == -2, "process %d: %s: orientation %d of an edge", me, as, o);
      Geo e { g.tree, { g.v[i], g.v[(i + 1) % 4] } }; if (o) std::swap (e.v[0], e.v[1]);
      place (cone (p, i), e, as);
    }
    if (dim && frame[p].v.empty ()) { frame[p] = g; todo.push_back (p); }
  }
  /* child number of the entity spanned by v in the entity with cone vertices P, where c is the own corner */
  static int edge_child (bool half, int i) { return half ? (DIM == 2 ? 9 : 63) + i : DIM == 2 ? 25 : 125; }
  int sub (int i) const { static const int z[4] = { 0, 1, 3, 2 }; return 15 + (custom ? z[i] : i); }
  int inner (int k) const { static const int f[4] = { 2, 1, 3, 0 }; return 87 + (custom ? f[k] : k); }
  void isChild (I p, I q, int i, const char *as) {
    CHECK (parent[p] == q && id[p] == i, "process %d: %s is point %d with parent %d and number %d, expected parent %d and number %d", me, as, p, parent[p], id[p], q, i);
  }
  void structure () {
    CHECK (D.n (DIMS) == DIM + 1, "process %d: %zu dimensions", me, D.n (DIMS));
    /* cells, vertices, then what is between them, from large to small */
    I n = D.at (DIMS, DIM); CHECK (n == (I) cell.size (), "process %d: %d cells, expected %zu", me, n, cell.size ());
    st[DIM] = 0; I o = n; for (int d = DIM - 1; d >= 0; --d) { st[d] = o; o += D.at (DIMS, (size_t) d); }
    np = (size_t) o;
    CHECK (D.n (SIZES) == np, "process %d: %zu cone sizes for %zu points", me, D.n (SIZES), np);
    coff.assign (np + 1, 0);
    for (size_t p = 0; p < np; ++p) { I s = D.at (SIZES, p); CHECK (s == 2 * dimof ((I) p), "process %d: cone size %d of point %zu", me, s, p); coff[p + 1] = coff[p] + (size_t) s; }
    CHECK (D.n (CONES) == coff[np] && D.n (ORI) == coff[np], "process %d: %zu cone entries, %zu orientations, expected %zu", me, D.n (CONES), D.n (ORI), coff[np]);
    for (size_t k = 0; k < D.n (CONES); ++k) CHECK (D.at (CONES, k) >= 0 && D.at (CONES, k) < (I) np, "process %d: cone entry %d", me, D.at (CONES, k));
    CHECK (D.n (COORD) == (size_t) D.at (DIMS, 0), "process %d: %zu coordinates for %d vertices", me, D.n (COORD), D.at (DIMS, 0));
    CHECK (D.n (CHILD) == D.n (PARENT) && D.n (CHILD) == D.n (IDS), "process %d: different numbers of children, parents and child numbers", me);
    CHECK (D.n (LEAVES) == D.n (REMOTES), "process %d: %zu leaves and %zu remote points", me, D.n (LEAVES), D.n (REMOTES));
    parent.assign (np, -1); id.assign (np, -1); name.resize (np); known.assign (np, 0); frame.resize (np);
    for (size_t k = 0; k < D.n (CHILD); ++k) {
      I c = D.at (CHILD, k), q = D.at (PARENT, k); int i = D.at (IDS, k);
      CHECK (c >= 0 && c < (I) np && q >= 0 && q < (I) np, "process %d: child %d of parent %d", me, c, q);
      CHECK (parent[c] < 0, "process %d: point %d has two parents", me, c);
      parent[c] = q; id[c] = i; haschild.insert (q);
      CHECK (child.insert ({ { q, i }, c }).second, "process %d: point %d has two children number %d", me, q, i);
    }
  }
  void cells () {
#if VDIM == 2
    static const int face[4] = { 2, 1, 3, 0 };          /* by position in the cone */
    static const int cyc[4][2] = { { 0, 1 }, { 1, 3 }, { 3, 2 }, { 2, 0 } };
    enum { NV = 2 };
#else
    static const int face[6] = { 4, 5, 2, 3, 1, 0 };
    static const int cyc[6][4] = { { 0, 2, 3, 1 }, { 4, 5, 7, 6 }, { 0, 1, 5, 4 }, { 3, 2, 6, 7 }, { 1, 3, 7, 5 }, { 0, 4, 6, 2 } };
    enum { NV = 4 };
#endif
    for (I c = 0; c < (I) cell.size (); ++c) {
      const GL & g = m.em.leaves[cell[c]]; Leaf L = g.l, P = L.level ? L.parent () : L; int own = L.childid ();
      auto at = [&] (const Leaf & l, int k) { Ent e = ent_corner (k); return EntityModel::center (l, e); };
      call (c, m.key (g.tree, L, Ent ()), "a cell");
      char as[60];
      for (int pos = 0; pos < NF; ++pos) {
        int f = face[pos]; I F = cone (c, pos), o = ori (c, pos); snprintf (as, sizeof as, "face %d of cell %d", f, c);
        CHECK (dimof (F) == DIM - 1, "process %d: %s is point %d of dimension %d", me, as, F, dimof (F));
        int fv[NV];                                     /* cell corner at each cone vertex of F */
#if VDIM == 2
        CHECK (o == 0 || o == -2, "process %d: %s: orientation %d", me, as, o);
        for (int i = 0; i < 2; ++i) fv[o ? 1 - i : i] = cyc[pos][i];
#else
        CHECK (o >= -4 && o < 4, "process %d: %s: orientation %d", me, as, o);
        for (int i = 0; i < 4; ++i) fv[o >= 0 ? (o + i) % 4 : (-(o + 1) - i + 5) % 4] = cyc[pos][i];
#endif
        Geo G { g.tree, {} }; for (int k : fv) G.v.push_back (at (L, k));
        place (F, G, as);
        bool hf = m.em.hangs (cell[c], ent_face (f)); I PF = -1;
        if (hf) {
          PF = parent[F]; CHECK (PF >= 0, "process %d: %s hangs and has no parent", me, as);
          Geo H { g.tree, {} }; for (int k : fv) H.v.push_back (at (P, k));
          place (PF, H, "the parent of a hanging face");
          int j = 0; while (fv[j] != own) ++j;
          isChild (F, PF, DIM == 2 ? edge_child (true, j) : sub (j), as);
        }
        for (int j = 0; j < NV; ++j) {
          /* the corner, and in 3D the edge from it to the next, as part of this face */
          Ent e = ent_corner (fv[j]); I V = DIM == 2 ? cone (F, j) : cone (cone (F, j), ori (F, j) ? 1 : 0);
          if (m.em.hangs (cell[c], e)) {
            Ent s = EntityModel::smallest (L, e);
            if (s.dim () == DIM - 1 && s.c[f / 2] == (f & 1)) isChild (V, PF, DIM == 2 ? edge_child (false, 0) : 137, "the corner at the center of a hanging face");
          }
          else CHECK (parent[V] < 0, "process %d: the corner %d of cell %d does not hang and has parent %d", me, fv[j], c, parent[V]);
#if VDIM == 3
          int u = fv[j], w = fv[(j + 1) % 4]; Ent x; for (int a = 0; a < 3; ++a) if (((u ^ w) >> a & 1) == 0) x.c[a] = u >> a & 1;
          I E = cone (F, j); bool back = ori (F, j) != 0;
          if (!m.em.hangs (cell[c], x)) { CHECK (parent[E] < 0, "process %d: an edge of cell %d does not hang and has parent %d", me, c, parent[E]); continue; }
          Ent s = EntityModel::smallest (L, x);
          if (s.dim () == 1) {
            I PE = parent[E]; CHECK (PE >= 0, "process %d: an edge of cell %d hangs and has no parent", me, c);
            int a0 = back ? w : u, a1 = back ? u : w;
            place (PE, Geo { g.tree, { at (P, a0), at (P, a1) } }, "the parent of a hanging edge");
            isChild (E, PE, edge_child (true, a1 == own), "a hanging edge");
            I M = cone (E, a1 == own ? 0 : 1); isChild (M, PE, 125, "the midpoint of a hanging edge");
          }
          else if (s.c[f / 2] == (f & 1)) {
            /* the end that is next to the own corner lies on the edge of the parent from own to that end's direction */
            int outer = (u ^ own) == 1 || (u ^ own) == 2 || (u ^ own) == 4 ? u : w;
            int k = 0; for (; k < 4; ++k) { int p0 = fv[k], p1 = fv[(k + 1) % 4]; if ((p0 == own && p1 == outer) || (p1 == own && p0 == outer)) break; }
            if (k == 4) eng::internal ("inner edge");
            isChild (E, PF, inner (k), "an edge inside a hanging face");
          }
#endif
        }
        if (!hf) CHECK (parent[F] < 0, "process %d: %s does not hang and has parent %d", me, as, parent[F]);
      }
    }
  }
  I kid (I p, int i) { auto it = child.find ({ p, i }); CHECK (it != child.end (), "process %d: point %d has no child number %d", me, p, i); return it->second; }
  void children () {
    size_t used = 0;
    while (!todo.empty ()) {
      I p = todo.back (); todo.pop_back ();
      Geo g = frame[p]; int dim = (int) g.v.size () == 2 ? 1 : 2;
      if (!m.split.count (name[p])) { CHECK (!haschild.count (p), "process %d: point %d has children and is not divided", me, p); continue; }
      Pt c = mid (g.v);
      if (dim == 1) {
        place (kid (p, edge_child (true, 0)), Geo { g.tree, { g.v[0], c } }, "half of an edge");
        place (kid (p, edge_child (true, 1)), Geo { g.tree, { c, g.v[1] } }, "half of an edge");
        place (kid (p, edge_child (false, 0)), Geo { g.tree, { c } }, "midpoint of an edge");
        used += 3;
      }
      else {
        for (int i = 0; i < 4; ++i) { Geo h { g.tree, {} }; for (int j = 0; j < 4; ++j) h.v.push_back (mid ({ g.v[i], g.v[j] })); place (kid (p, sub (i)), h, "a quarter of a face"); }
        for (int k = 0; k < 4; ++k) {
          I E = kid (p, inner (k)); Pt o = mid ({ g.v[k], g.v[(k + 1) % 4] });
          /* PETSc: towards the center; custom: as the coordinates increase */
          Geo h { g.tree, { o, c } }; if (custom && (k == 1 || k == 2)) std::swap (h.v[0], h.v[1]);
          place (E, h, "an edge inside a divided face");
        }
        place (kid (p, 137), Geo { g.tree, { c } }, "the center of a face");
        used += 9;
      }
    }
    CHECK (used == D.n (CHILD), "process %d: %zu children, expected %zu", me, D.n (CHILD), used);
  }
  void coordinates () {
    for (I i = 0; i < D.at (DIMS, 0); ++i) {
      const double *x = (const double *) sc_array_index (D.a[COORD], (size_t) i); PKey k = name[st[0] + i]; bool ok = false;
      for (auto & r : m.em.conn->point_class (k.second.first, k.second.second)) {
        double y[3]; p4est_qcoord_to_vertex (conn, r.first, (p4est_qcoord_t) r.second.x[0], (p4est_qcoord_t) r.second.x[1], 
#if VDIM == 3
          (p4est_qcoord_t) r.second.x[2],
#endif
          y);
        ok = ok || (x[0] == y[0] && x[1] == y[1] && x[2] == y[2]);
      }
      CHECK (ok, "process %d: vertex %d has the coordinates %g %g %g", me, st[0] + i, x[0], x[1], x[2]);
    }
  }
  p4est_connectivity_t *conn = nullptr;
};

static bool equal (sc_array_t * a, sc_array_t * b) { return a->elem_count == b->elem_count && !memcmp (a->array, b->array, a->elem_count * a->elem_size); }
void prop () {
  Built b; BuildOpts o; o.balance_codim = range (DIM - 1, DIM); o.need_vertices = true; o.maxleaves = thorough () ? 400 : DIM == 3 ? 110 : 150; o.data = false; o.maxP = 9; o.maxtrees = 12;
  draw_built (b, o);
  int overlap = (int) weighted ({ 30, 50, 20 }), custom = chance (35), codim = chance (70) ? DIM : range (1, DIM), how = (int) draw (3);
  Model m; m.init (b);
  int P = b.cfg.P; bool hang = !m.split.empty ();
  if (hang || P > 1) nontrivial ();
  label ("overlap %d", overlap); if (hang) label ("hanging"); if (custom) label ("custom numbering"); if (codim < DIM) label ("adjacency of codimension %d", codim);
  std::vector<std::set<i64>> K; for (int r = 0; r < P; ++r) K.push_back (m.cells (r, overlap, codim));
  describe ("overlap %d, %s numbering, adjacency codim %d, variant %d; ", overlap, custom ? "custom" : "PETSc", codim, how);
  std::vector<std::unique_ptr<Data>> data (P); std::vector<std::unique_ptr<Rank>> R (P);
  MemMark mm = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int r) {
    p4est_t *p = build (b); p4est_ghost_t *g = nullptr; p4est_lnodes_t *l = nullptr;
    data[r].reset (new Data); Data & D = *data[r];
    if (how == 2 && codim == DIM) {
      g = p4est_ghost_new (p, P4EST_CONNECT_FULL); l = p4est_lnodes_new (p, g, -DIM);
      if (overlap) p4est_ghost_support_lnodes (p, l, g);
      for (int i = 1; i < overlap; ++i) p4est_ghost_expand_by_lnodes (p, l, g);
    }
    p4est_ghost_t *g0 = g; p4est_lnodes_t *l0 = l;
    p4est_get_plex_data_ext (p, &g, &l, btype_of (codim), overlap, &D.first, D.a[0], D.a[1], D.a[2], D.a[3], D.a[4], D.a[5], D.a[6], D.a[7], D.a[8], D.a[9], custom);
    CHECK (g && l && (!g0 || (g == g0 && l == l0)), "process %d: the ghost layer or the nodes are missing or others", r);
    if (how == 1 && !custom) {
      Data E; p4est_get_plex_data (p, btype_of (codim), overlap, &E.first, E.a[0], E.a[1], E.a[2], E.a[3], E.a[4], E.a[5], E.a[6], E.a[7], E.a[8], E.a[9]);
      CHECK (E.first == D.first, "process %d: first local cell %d and %d", r, D.first, E.first);
      for (int i = 0; i < 10; ++i) CHECK (equal (D.a[i], E.a[i]), "process %d: array %d differs between the two functions", r, i);
    }
    p4est_lnodes_destroy (l); p4est_ghost_destroy (g);
    Rank *x = new Rank (m, r, D, custom); R[r].reset (x); x->conn = p->connectivity;
    x->cell.assign (K[r].begin (), K[r].end ());
    I first = 0; for (i64 i : x->cell) first += i < b.cuts[r];
    CHECK (D.first == first, "process %d: first local cell %d, expected %d", r, D.first, first);
    x->structure (); x->cells (); x->children (); x->coordinates ();
    for (size_t q = 0; q < x->np; ++q) CHECK (x->known[q], "process %d: point %zu of dimension %d is part of no cell", r, q, x->dimof ((I) q));
    std::set<PKey> want = m.expected (K[r]), have; for (auto & q : x->point) have.insert (q.first);
    CHECK (want == have, "process %d: %zu points, expected %zu", r, have.size (), want.size ());
    destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  /* every point has one owner, all others refer to it */
  std::vector<std::set<I>> lv (P);
  for (int r = 0; r < P; ++r) for (size_t k = 0; k < data[r]->n (LEAVES); ++k) { I q = data[r]->at (LEAVES, k); CHECK (q >= 0 && q < (I) R[r]->np && lv[r].insert (q).second, "process %d: leaf point %d is wrong or listed twice", r, q); }
  for (int r = 0; r < P; ++r) for (size_t k = 0; k < data[r]->n (LEAVES); ++k) {
    I q = data[r]->at (LEAVES, k); const I *rm = (const I *) sc_array_index (data[r]->a[REMOTES], k);
    CHECK (rm[0] >= 0 && rm[0] < P && rm[0] != r && rm[1] >= 0 && rm[1] < (I) R[rm[0]]->np, "process %d: point %d refers to point %d of process %d", r, q, rm[1], rm[0]);
    CHECK (R[rm[0]]->name[rm[1]] == R[r]->name[q], "process %d: point %d refers to point %d of process %d, which is another one", r, q, rm[1], rm[0]);
    CHECK (!lv[rm[0]].count (rm[1]), "process %d: point %d refers to point %d of process %d, which does not own it", r, q, rm[1], rm[0]);
    if (q < (I) R[r]->cell.size ()) CHECK (owner_of (b.cuts, R[r]->cell[q]) == rm[0], "process %d: cell %d refers to process %d", r, q, rm[0]);
  }
  std::map<PKey, int> owner;
  for (int r = 0; r < P; ++r) for (auto & q : R[r]->point) if (!lv[r].count (q.second)) { auto it = owner.insert ({ q.first, r }); CHECK (it.second, "point %d of process %d is also owned by process %d", q.second, r, it.first->second); }
  /* the same place has the same coordinates everywhere */
  std::map<PKey, std::array<double, 3>> xyz;
  for (int r = 0; r < P; ++r) for (I i = 0; i < data[r]->at (DIMS, 0); ++i) {
    const double *x = (const double *) sc_array_index (data[r]->a[COORD], (size_t) i);
    auto it = xyz.insert ({ R[r]->name[R[r]->st[0] + i], { x[0], x[1], x[2] } }).first;
    CHECK (it->second[0] == x[0] && it->second[1] == x[1] && it->second[2] == x[2], "process %d: a vertex has other coordinates than on another process", r);
  }
  R.clear (); data.clear ();
  mem_check (mm, "after destroying everything");
}
}
