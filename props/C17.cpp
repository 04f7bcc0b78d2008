/* Mesh tables and neighbor queries against the interfaces computed from the geometry */
#include "ghost_common.h"
#include "iter_common.h"
#if VDIM == 3
#include <p8est_mesh.h>
#include <p8est_extended.h>
#else
#include <p4est_mesh.h>
#include <p4est_extended.h>
#endif
namespace DNS {
using namespace eng;
enum { NORI = DIM == 2 ? 2 : 4, FB = NF * NORI };       /* face codes of one size */
struct FaceN { std::vector<i64> l; int code; };         /* neighbors and code of the table */
struct Tok { std::vector<i64> l; int code; bool operator< (const Tok & o) const { return l != o.l ? l < o.l : code < o.code; } bool operator== (const Tok & o) const { return l == o.l && code == o.code; } };
struct Group { int special = 0; bool direct = false; std::vector<Tok> t; };     /* special: -1, -3 or 0 */
struct Model {
  const Built *b; InterfaceModel im;
  void init (const Built & bb) { b = &bb; im.init (bb, 0); }
  const Leaf & leaf (i64 i) const { return im.em.leaves[i].l; }
  const Side & side_of (const Entity & E, i64 i, const Ent & e) const {
    for (auto & s : E.sides) for (auto & x : s.leaves) if (x.second == i && s.ent == e.index ()) return s;
    eng::internal ("side not found");
  }
  Loc point (int tree, const Leaf & l, const Ent & e) const { return im.em.canon (tree, EntityModel::center (l, e)); }
  FaceN face (i64 i, int f) {
    Ent e = ent_face (f);
    Entity & E = im.ents[im.of[{ i, e.index () }]];
    if (E.sides.size () == 1) return { { i }, f };
    const Side & A = side_of (E, i, e), & B = &E.sides[0] == &A ? E.sides[1] : E.sides[0];
    int nf = number (ent_of (B.ent)), r = 0;
    if (E.sides[0].tree != E.sides[1].tree || !im.em.interior (EntityModel::center (A.box, e))) r = b->conn.ttf[A.tree * NF + f] / NF;
    int base = r * NF + nf;
    if (A.full && B.full) return { { B.leaves.at (0) }, base };
    if (!A.full) {      /* the neighbor is larger */
      Loc me = point (A.tree, leaf (i), e); int h = -1;
      for (int k = 0; k < HALF; ++k) if (point (B.tree, B.box.child (face_corner (nf, k)), ent_face (nf)) == me) h = k;
      return { { B.leaves.at (0) }, FB + h * FB + base };
    }
    FaceN n { {}, -FB + base };
    for (int k = 0; k < HALF; ++k) {
      Loc me = point (A.tree, A.box.child (face_corner (f, k)), e);
      for (auto & x : B.leaves) if (point (B.tree, leaf (x.second), ent_face (nf)) == me) n.l.push_back (x.second);
    }
    return n;
  }
  bool share_face (const Side & A, const Side & B) const {
    Ent a = ent_of (A.ent), c = ent_of (B.ent);
    for (int x = 0; x < DIM; ++x) if (a.c[x] < 2) for (int y = 0; y < DIM; ++y) if (c.c[y] < 2)
      if (face_germ (b->conn, A.tree, A.box, a, x) == face_germ (b->conn, B.tree, B.box, c, y)) return true;
    return false;
  }
  bool share_edge (const Side & A, const Side & B) const {
    Ent a = ent_of (A.ent), c = ent_of (B.ent);
    for (int x = 0; x < DIM; ++x) for (int y = 0; y < DIM; ++y)
      if (germ_at (b->conn, A.tree, A.box, a, x) == germ_at (b->conn, B.tree, B.box, c, y)) return true;
    return false;
  }
  /* end 0 or 1 of an edge, as a point near the center */
  Loc halfway (const Side & A, int end) const {
    Ent e = ent_of (A.ent); Pt c = EntityModel::center (A.box, e);
    for (int x = 0; x < DIM; ++x) c.x[x] = 2 * c.x[x] + (e.c[x] == 2 ? 2 * end - 1 : 0);
    return germ_of (b->conn, A.tree, c, 2);
  }
  Group edge (i64 i, int ed) {
    Group g; Ent e = ent_edge (ed); auto it = im.of.find ({ i, e.index () });
    if (it == im.of.end ()) { g.special = -1; return g; }
    Entity & E = im.ents[it->second];
    const Side & A = side_of (E, i, e);
    bool inner = EntityModel::interior (EntityModel::center (A.box, e));
    int mypos = 0; for (auto & x : A.leaves) if (x.second == i) mypos = x.first;
    bool direct = inner;
    for (auto & B : E.sides) {
      if (&B == &A || share_face (A, B)) continue;
      int r = !(halfway (A, 0) == halfway (B, 0)), ne = number (ent_of (B.ent));
      if (A.full && B.full) g.t.push_back ({ { B.leaves.at (0) }, r * 12 + ne });
      else if (!A.full && !B.full) g.t.push_back ({ { B.leaves.at (mypos ^ r) }, r * 12 + ne });
      else if (!A.full) { g.t.push_back ({ { B.leaves.at (0) }, 24 + (mypos ^ r) * 24 + r * 12 + ne }); direct = false; }
      else { g.t.push_back ({ { B.leaves.at (r), B.leaves.at (1 - r) }, -24 + r * 12 + ne }); direct = false; }
    }
    if (g.t.empty ()) g.special = -3;
    g.direct = direct && !g.special;
    return g;
  }
  Group corner (i64 i, int c, bool edgehanging) {
    Group g; Ent e = ent_corner (c); auto it = im.of.find ({ i, e.index () });
    const GL & gl = im.em.leaves[i];
    if (it != im.of.end ()) {
      Entity & E = im.ents[it->second];
      const Side & A = side_of (E, i, e);
      for (auto & B : E.sides) {
        if (&B == &A || share_face (A, B) || (DIM == 3 && share_edge (A, B))) continue;
        g.t.push_back ({ { B.leaves.at (0) }, number (ent_of (B.ent)) });
      }
      if (g.t.empty ()) g.special = -3;
      else g.direct = EntityModel::interior (EntityModel::center (gl.l, e));
      return g;
    }
    g.special = -1;
    if (DIM == 2 || !edgehanging) return g;
    /* the corner may be in the middle of a larger edge */
    Ent s = EntityModel::smallest (gl.l, e);
    if (s.dim () != 1) return g;
    auto et = im.of.find ({ i, s.index () });
    if (et == im.of.end ()) return g;
    Entity & E = im.ents[et->second];
    const Side & A = side_of (E, i, s);
    if (A.full) return g;
    int mypos = 0; for (auto & x : A.leaves) if (x.second == i) mypos = x.first;
    for (auto & B : E.sides) {
      if (&B == &A || B.full || share_face (A, B)) continue;
      int r = !(halfway (A, 0) == halfway (B, 0)), pos = mypos ^ r ^ 1;
      Ent ce = ent_of (B.ent);
      for (int x = 0; x < DIM; ++x) if (ce.c[x] == 2) ce.c[x] = 1 - pos;        /* the inner end of that half */
      g.t.push_back ({ { B.leaves.at (pos) }, number (ce) });
    }
    if (!g.t.empty ()) { g.special = 0; g.direct = EntityModel::interior (EntityModel::center (A.box, s)); }
    return g;
  }
};
static std::string text (std::vector<Tok> t) { std::sort (t.begin (), t.end ()); std::string s; for (auto & x : t) { s += " ["; for (i64 l : x.l) s += std::to_string (l) + " "; s += "code " + std::to_string (x.code) + "]"; } return s; }
static i64 position (sc_array_t * a, void *q) { uintptr_t x = (uintptr_t) q, y = (uintptr_t) a->array; return x < y || (x - y) % a->elem_size || (x - y) / a->elem_size >= a->elem_count ? -1 : (i64) ((x - y) / a->elem_size); }
void prop () {
  Built b; BuildOpts o; o.balance_codim = DIM; o.maxleaves = thorough () ? 500 : DIM == 3 ? 130 : 200;
  o.wide = 60; draw_built (b, o);
  int codim = (int[]) { DIM, 1, 2 } [weighted ({ 70, 15, 15 })], gcodim = chance (70) ? DIM : range (codim, DIM);
  bool trees = chance (60), levels = draw (2), hedges = draw (2); int how = (int) draw (3);
  Model m; m.init (b);
  bool hang = false, multi = false;
  for (auto & e : m.im.ents) { for (auto & s : e.second.sides) hang |= !s.full; std::set<int> own; for (i64 i : e.second.all) own.insert (owner_of (b.cuts, i)); multi |= own.size () > 1; }
  if (hang || multi) nontrivial ();
  label (hang ? "hanging" : "conforming"); label ("neighbors up to codimension %d", codim); if (multi) label ("across processes");
  describe ("mesh codim %d ghost codim %d trees %d levels %d hanging edges %d how %d; ", codim, gcodim, trees, levels, hedges, how);
  if (how == 0) { trees = levels = hedges = false; } else if (how == 1) hedges = false;
  GhostModel gm; gm.init (b, gcodim);
  MemMark mm = mem_mark ();
  sim::Report rep;
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    p4est_ghost_t *g = p4est_ghost_new (p, btype_of (gcodim));
    p4est_mesh_t *mesh;
    if (how == 0) mesh = p4est_mesh_new (p, g, btype_of (codim));
    else if (how == 1) mesh = p4est_mesh_new_ext (p, g, trees, levels, btype_of (codim));
    else {
      p4est_mesh_params_t mp; p4est_mesh_params_init (&mp);
      mp.btype = btype_of (codim); mp.compute_level_lists = levels; mp.compute_tree_index = trees;
#if VDIM == 3
      mp.edgehanging_corners = hedges;
#endif
      mesh = p4est_mesh_new_params (p, g, &mp);
    }
    i64 first = b.cuts[me], n = b.cuts[me + 1] - first, ng = (i64) g->ghosts.elem_count;
    CHECK (mesh->local_num_quadrants == n && mesh->ghost_num_quadrants == ng, "wrong counts in the mesh");
    std::vector<i64> gl; for (i64 k = 0; k < ng; ++k) { auto *q = p4est_quadrant_array_index (&g->ghosts, k); int t = q->p.piggy3.which_tree; gl.push_back (m.im.em.off[t] + b.forest.find (t, leaf_of (q).key)); }
    for (i64 k = 0; k < ng; ++k) CHECK (mesh->ghost_to_proc[k] == owner_of (b.cuts, gl[k]), "process %d: ghost %lld is owned by %d, mesh has %d", me, (long long) k, owner_of (b.cuts, gl[k]), mesh->ghost_to_proc[k]);
    auto global = [&] (i64 id, const char *what) { CHECK (id >= 0 && id < n + ng, "process %d: %s: index %lld out of range", me, what, (long long) id); return id < n ? first + id : gl[id - n]; };
    CHECK ((mesh->quad_to_tree != nullptr) == trees && (mesh->quad_level != nullptr) == levels, "optional tables do not match the request");
    if (trees) for (i64 i = 0; i < n; ++i) CHECK (mesh->quad_to_tree[i] == b.leaves[first + i].tree, "process %d: leaf %lld in tree %d", me, (long long) i, (int) mesh->quad_to_tree[i]);
    if (levels) for (int l = 0; l <= P4EST_QMAXLEVEL; ++l) {
      std::vector<p4est_locidx_t> w; for (i64 i = 0; i < n; ++i) if (b.leaves[first + i].l.level == l) w.push_back ((p4est_locidx_t) i);
      sc_array_t *a = mesh->quad_level + l;
      CHECK (a->elem_count == w.size () && (w.empty () || !memcmp (a->array, w.data (), w.size () * sizeof w[0])), "process %d: list of level %d has %zu entries, expected %zu", me, l, a->elem_count, w.size ());
    }
    CHECK ((mesh->quad_to_corner != nullptr) == (codim == DIM), "corner table does not match the request");
    p4est_locidx_t half = 0;
    std::vector<char> usede, usedc;
    auto groups = [&] (sc_array_t * off, sc_array_t * q, sc_array_t * c, i64 num, std::vector<char> & used, const char *what) {
      CHECK ((i64) off->elem_count == num + 1 && *(p4est_locidx_t *) sc_array_index (off, 0) == 0, "process %d: wrong %s offsets", me, what);
      for (i64 k = 0; k < num; ++k) CHECK (*(p4est_locidx_t *) sc_array_index (off, k) < *(p4est_locidx_t *) sc_array_index (off, k + 1), "process %d: empty %s group", me, what);
      CHECK ((i64) q->elem_count == *(p4est_locidx_t *) sc_array_index (off, num) && q->elem_count == c->elem_count, "process %d: %s entries do not end at the last offset", me, what);
      used.assign (num, 0);
    };
    if (codim == DIM) groups (mesh->corner_offset, mesh->corner_quad, mesh->corner_corner, mesh->local_num_corners, usedc, "corner");
#if VDIM == 3
    CHECK ((mesh->quad_to_edge != nullptr) == (codim >= 2), "edge table does not match the request");
    if (codim >= 2) groups (mesh->edge_offset, mesh->edge_quad, mesh->edge_edge, mesh->local_num_edges, usede, "edge");
#endif
    /* one entry of an edge or corner table */
    auto entry = [&] (i64 i, i64 v, const Group & w, int opposite, sc_array_t * off, sc_array_t * q, sc_array_t * c, std::vector<char> & used, const char *what, int k) {
      if (w.special) { CHECK (v == w.special, "process %d: leaf %lld %s %d has value %lld, expected %d", me, (long long) (first + i), what, k, (long long) v, w.special); return; }
      std::vector<Tok> have;
      if (w.direct) {
        CHECK (v >= 0 && v < n + ng, "process %d: leaf %lld %s %d has value %lld, expected a quadrant:%s", me, (long long) (first + i), what, k, (long long) v, text (w.t).c_str ());
        have.push_back ({ { global (v, what) }, opposite });
      }
      else {
        i64 gi = v - n - ng;
        CHECK (gi >= 0 && gi < (i64) used.size (), "process %d: leaf %lld %s %d has value %lld, expected a group:%s", me, (long long) (first + i), what, k, (long long) v, text (w.t).c_str ());
        CHECK (!used[gi], "process %d: %s group %lld is used twice", me, what, (long long) gi);
        used[gi] = 1;
        for (i64 z = *(p4est_locidx_t *) sc_array_index (off, gi), e = *(p4est_locidx_t *) sc_array_index (off, gi + 1); z < e; ++z) {
          i64 l = global (*(p4est_locidx_t *) sc_array_index (q, z), what); int code = *(int8_t *) sc_array_index (c, z);
          if (code < 0 && !have.empty () && have.back ().code == code && have.back ().l.size () == 1) have.back ().l.push_back (l);
          else have.push_back ({ { l }, code });
        }
      }
      auto a = have, e = w.t; std::sort (a.begin (), a.end ()); std::sort (e.begin (), e.end ());
      CHECK (a == e, "process %d: leaf %lld %s %d has neighbors%s, expected%s", me, (long long) (first + i), what, k, text (a).c_str (), text (e).c_str ());
      eng::checks (a.size ());
    };
    /* queries */
    auto query = [&] (i64 i, int dir, std::vector<std::pair<i64, int>> want, const char *what, int k) {
      int mode = (int) (mix (b.tagseed, i, dir) % 3);
      if (!trees) return;
      sc_array_t *aq = mode == 1 ? nullptr : sc_array_new (sizeof (p4est_quadrant_t *)), *ae = sc_array_new (sizeof (int)), *ai = mode == 2 ? nullptr : sc_array_new (sizeof (int));
      p4est_mesh_get_neighbors (p, g, mesh, (p4est_locidx_t) i, dir, aq, ae, ai);
      CHECK (ae->elem_count == want.size () && (!aq || aq->elem_count == want.size ()) && (!ai || ai->elem_count == want.size ()), "process %d: query for leaf %lld %s %d returns %zu neighbors, expected %zu", me, (long long) (first + i), what, k, ae->elem_count, want.size ());
      std::vector<std::pair<i64, int>> have;
      for (size_t z = 0; z < want.size (); ++z) {
        int enc = *(int *) sc_array_index (ae, z), id = -1; i64 l = -1;
        if (ai) { id = *(int *) sc_array_index (ai, z); l = global (enc < 0 ? id + n : id, "query"); }
        if (aq) {
          p4est_quadrant_t *q = *(p4est_quadrant_t **) sc_array_index (aq, z);
          i64 lq = -1;
          if (enc < 0) { i64 pos = position (&g->ghosts, q); CHECK (pos >= 0, "query returns a ghost outside of the layer"); lq = gl[pos]; }
          else for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) { auto *tr = p4est_tree_array_index (p->trees, t); i64 pos = position (&tr->quadrants, q); if (pos >= 0) lq = first + tr->quadrants_offset + pos; }
          CHECK (lq >= 0 && (l < 0 || l == lq), "process %d: query for leaf %lld %s %d: quadrant pointer (leaf %lld) and index (leaf %lld) disagree, code %d", me, (long long) (first + i), what, k, (long long) lq, (long long) l, enc);
          l = lq;
        }
        CHECK ((owner_of (b.cuts, l) != me) == (enc < 0), "process %d: query for leaf %lld %s %d: code %d for leaf %lld", me, (long long) (first + i), what, k, enc, (long long) l);
        have.push_back ({ l, std::abs (enc) });
      }
      auto h = have, w = want; if (dir >= NF) { std::sort (h.begin (), h.end ()); std::sort (w.begin (), w.end ()); }
      std::string sh, sw; for (auto & x : h) sh += " " + std::to_string (x.first) + "/" + std::to_string (x.second); for (auto & x : w) sw += " " + std::to_string (x.first) + "/" + std::to_string (x.second);
      CHECK (h == w, "process %d: query for leaf %lld %s %d returns%s, expected%s", me, (long long) (first + i), what, k, sh.c_str (), sw.c_str ());
      eng::checks (h.size ());
      if (aq) sc_array_destroy (aq);
      sc_array_destroy (ae); if (ai) sc_array_destroy (ai);
    };
    std::vector<char> gd (b.data_size * ng + 1);
    if (b.data_size) p4est_ghost_exchange_data (p, g, gd.data ());
    for (i64 i = 0; i < n; ++i) {
      std::vector<FaceN> fn;
      for (int f = 0; f < NF; ++f) {
        FaceN w = m.face (first + i, f); fn.push_back (w);
        i64 v = mesh->quad_to_quad[NF * i + f]; int code = mesh->quad_to_face[NF * i + f];
        CHECK (code == w.code, "process %d: leaf %lld face %d has code %d, expected %d", me, (long long) (first + i), f, code, w.code);
        std::vector<i64> have;
        if (code < 0) { CHECK (v >= 0 && v < (i64) mesh->quad_to_half->elem_count, "half-size index out of range"); ++half; for (int k = 0; k < HALF; ++k) have.push_back (global (((p4est_locidx_t *) sc_array_index (mesh->quad_to_half, v))[k], "half-size neighbor")); }
        else have.push_back (global (v, "face neighbor"));
        CHECK (have == w.l, "process %d: leaf %lld face %d code %d has neighbor %lld, expected %lld", me, (long long) (first + i), f, code, (long long) have[0], (long long) w.l[0]);
        eng::checks (have.size ());
        std::vector<std::pair<i64, int>> q;
        if (!(w.l[0] == first + i && w.code == f)) for (i64 l : w.l) q.push_back ({ l, w.code < 0 ? w.code + FB + FB * (HALF + 1) + 1 : w.code + 1 });
        query (i, f, q, "face", f);
      }
#if VDIM == 3
      if (codim >= 2) for (int e = 0; e < 12; ++e) {
        Group w = m.edge (first + i, e);
        entry (i, mesh->quad_to_edge[12 * i + e], w, e ^ 3, mesh->edge_offset, mesh->edge_quad, mesh->edge_edge, usede, "edge", e);
        std::vector<std::pair<i64, int>> q;
        if (!w.special) for (auto & t : w.t) for (i64 l : t.l) q.push_back ({ l, t.code < 0 ? t.code + 97 : t.code + 1 });
        if (gcodim >= 2) query (i, NF + e, q, "edge", e);
      }
#endif
      if (codim == DIM) for (int c = 0; c < NCH; ++c) {
        Group w = m.corner (first + i, c, hedges);
        entry (i, mesh->quad_to_corner[NCH * i + c], w, c ^ (NCH - 1), mesh->corner_offset, mesh->corner_quad, mesh->corner_corner, usedc, "corner", c);
        std::vector<std::pair<i64, int>> q;
        if (!w.special) for (auto & t : w.t) for (i64 l : t.l) q.push_back ({ l, t.code + 1 });
        query (i, NF + NE + c, q, "corner", c);
      }
      /* iterator over the face neighbors */
      const GL & me_l = b.leaves[first + i];
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, me_l.tree);
      p4est_mesh_face_neighbor_t mfn;
      if (i % 2) p4est_mesh_face_neighbor_init (&mfn, p, g, mesh, me_l.tree, p4est_quadrant_array_index (&tr->quadrants, i - tr->quadrants_offset));
      else p4est_mesh_face_neighbor_init2 (&mfn, p, g, mesh, me_l.tree, (p4est_locidx_t) (i - tr->quadrants_offset));
      for (int f = 0; f < NF; ++f)
        for (i64 l : fn[f].l) {
          p4est_topidx_t nt = -5; p4est_locidx_t nq = -5; int nface = -500, nrank = -5;
          p4est_quadrant_t *q = p4est_mesh_face_neighbor_next (&mfn, &nt, &nq, &nface, &nrank);
          CHECK (q != nullptr, "process %d: face neighbor iterator of leaf %lld ends early", me, (long long) (first + i));
          int ow = owner_of (b.cuts, l);
          CHECK (nt == b.leaves[l].tree && leaf_of (q) == b.leaves[l].l && nface == fn[f].code && nrank == ow, "process %d: face neighbor iterator of leaf %lld at face %d: tree %d code %d process %d", me, (long long) (first + i), f, (int) nt, nface, nrank);
          if (ow == me) CHECK (p4est_tree_array_index (p->trees, nt)->quadrants_offset + nq == l - first && q == p4est_quadrant_array_index (&p4est_tree_array_index (p->trees, nt)->quadrants, nq), "wrong local neighbor %d", nq);
          else CHECK (nq >= 0 && nq < ng && gl[nq] == l && q == p4est_quadrant_array_index (&g->ghosts, nq), "wrong ghost neighbor %d", nq);
          if (b.data_size) CHECK (check_bytes (p4est_mesh_face_neighbor_data (&mfn, gd.data ()), b.data_size, b.tag (b.leaves[l].tree, b.leaves[l].l)), "process %d: wrong data of a neighbor of leaf %lld", me, (long long) (first + i));
        }
      CHECK (p4est_mesh_face_neighbor_next (&mfn, nullptr, nullptr, nullptr, nullptr) == nullptr, "process %d: face neighbor iterator of leaf %lld does not end", me, (long long) (first + i));
      /* lookup by number */
      p4est_topidx_t wt = i % 3 == 0 ? -1 : i % 3 == 1 ? p->first_local_tree : me_l.tree; p4est_locidx_t qi = -1;
      p4est_quadrant_t *want = p4est_quadrant_array_index (&tr->quadrants, i - tr->quadrants_offset);
      CHECK (p4est_mesh_quadrant_cumulative (p, mesh, (p4est_locidx_t) i, &wt, &qi) == want && wt == me_l.tree && qi == i - tr->quadrants_offset, "process %d: lookup of leaf %lld gives %d in tree %d", me, (long long) i, qi, (int) wt);
      CHECK (p4est_mesh_quadrant_cumulative (p, mesh, (p4est_locidx_t) i, nullptr, nullptr) == want, "lookup without outputs");
      if (trees) CHECK (p4est_mesh_get_quadrant (p, mesh, (p4est_locidx_t) i) == want, "wrong quadrant");
    }
    CHECK ((i64) mesh->quad_to_half->elem_count == half, "process %d: %zu half-size groups, expected %d", me, mesh->quad_to_half->elem_count, half);
    for (char u : usede) CHECK (u, "process %d: an edge group belongs to no leaf", me);
    for (char u : usedc) CHECK (u, "process %d: a corner group belongs to no leaf", me);
    p4est_mesh_destroy (mesh);
    p4est_ghost_destroy (g);
    compare (p, b, "after mesh");
    destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mm, "after mesh");
}
}
