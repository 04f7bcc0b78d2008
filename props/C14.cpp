/* Iteration: every volume, face, edge and corner touched by a local leaf, once, with all its sides */
#include "ghost_common.h"
#include "iter_common.h"
#if VDIM == 3
#include <p8est_iterate.h>
#include <p8est_extended.h>
#else
#include <p4est_iterate.h>
#include <p4est_extended.h>
#endif
namespace DNS {
using namespace eng;
typedef InterfaceModel Model;
struct Run {
  const Built *b; Model *m; GhostModel *gm; p4est_t *p; p4est_ghost_t *g; int me; int codim; /* 0: no ghost layer */
  void *magic; bool onlyvol;
  int remote = 0; std::set<std::pair<int, Loc>> rtouch, seen;   /* entities of hanging faces and edges of local leaves */
  int seq = 0, nvol = 0;
  std::vector<int> volseq; std::map<std::pair<int, Loc>, int> done;
  std::vector<i64> gl;
  bool known (i64 i) const { return owner_of (b->cuts, i) == me || (codim > 0 && gm->ghosts[me].count (i)); }
  i64 leaf (int tree, int ghost, p4est_quadrant_t *q, p4est_locidx_t id, const char *what) {
    if (q == nullptr) { CHECK (ghost && id == -1, "process %d: %s: missing quadrant with index %d, ghost %d", me, what, id, ghost); return -1; }
    if (ghost) {
      CHECK (g && id >= 0 && id < (i64) g->ghosts.elem_count && q == p4est_quadrant_array_index (&g->ghosts, id), "process %d: %s: ghost quadrant %d is not that of the ghost layer", me, what, id);
      CHECK ((int) q->p.piggy3.which_tree == tree, "process %d: %s: ghost quadrant %d of tree %d reported in tree %d", me, what, id, (int) q->p.piggy3.which_tree, tree);
      return gl[id];
    }
    p4est_tree_t *t = p4est_tree_array_index (p->trees, tree);
    CHECK (id >= 0 && id < (i64) t->quadrants.elem_count && q == p4est_quadrant_array_index (&t->quadrants, id), "process %d: %s: local quadrant %d is not that of tree %d", me, what, id, tree);
    return b->cuts[me] + t->quadrants_offset + id;
  }
  /* one reported side as text, and the box it stands for */
  struct Got { int tree, ent; bool hang; std::vector<i64> l; };
  static std::string text (int tree, int num, bool hang, const std::vector<i64> & l) {
    std::string s = "tree " + std::to_string (tree) + " number " + std::to_string (num);
    bool any = false; for (i64 i : l) any |= i >= 0;
    if (!any) return s + " unknown";
    s += hang ? " hanging" : " full";
    for (i64 i : l) s += " " + std::to_string (i);
    return s;
  }
  std::map<std::pair<i64, int>, int> covered;
  bool complete (const Entity & E) const { for (i64 j : E.all) if (!known (j)) return false; for (i64 j : E.blockers) if (!known (j)) return false; return true; }
  std::pair<int, Loc> key_of (i64 i, int x) { auto it = m->of.find ({ i, x }); if (it != m->of.end ()) return it->second; Ent e = ent_of (x); return { e.dim (), m->em.canon (m->em.leaves[i].tree, EntityModel::center (m->em.leaves[i].l, e)) }; }
  /* the entity around the first quadrant known, if this process can know everything about it */
  Entity *find (int, std::vector<Got> & gs, std::pair<int, Loc> & key, const char *what) {
    Entity *E = nullptr;
    for (auto & r : gs)
      for (i64 i : r.l) {
        if (i < 0) continue;
        CHECK (m->em.leaves[i].tree == r.tree, "process %d: %s reports leaf %lld in tree %d", me, what, (long long) i, r.tree);
        auto k = key_of (i, r.ent);
        auto it = m->ents.find (k);
        CHECK (it != m->ents.end (), "process %d: %s reported for leaf %lld, number %d, where none exists", me, what, (long long) i, number (ent_of (r.ent)));
        if (owner_of (b->cuts, i) == me) CHECK ((++covered[{ i, r.ent }] == 1), "process %d: %s number %d of leaf %lld reported twice", me, what, number (ent_of (r.ent)), (long long) i);
        if (complete (it->second)) { E = &it->second; key = k; }
      }
    return E;
  }
  Entity *visit (int d, std::vector<Got> & gs, int boundary, const char *what) {
    std::pair<int, Loc> key;
    Entity *E = find (d, gs, key, what);
    bool local = false;
    for (auto & r : gs) for (i64 i : r.l) local |= i >= 0 && owner_of (b->cuts, i) == me;
    if (remote == 1 && !local) {
      bool any = false; std::set<std::pair<int, Loc>> ks;
      for (auto & r : gs) for (i64 i : r.l) if (i >= 0) ks.insert (key_of (i, r.ent));
      for (auto & k : ks) any |= rtouch.count (k);
      CHECK (any, "process %d: %s reported that belongs to no hanging face of a local leaf", me, what);
    }
    else CHECK (local, "process %d: %s reported that no local leaf touches", me, what);
    if (remote == 1) for (auto & r : gs) for (i64 i : r.l) if (i >= 0) seen.insert (key_of (i, r.ent));
    if (!E) { ++seq; return nullptr; }
    CHECK (!done.count (key), "process %d: %s of leaf %lld reported twice", me, what, (long long) *E->all.begin ());
    done[key] = seq++;
    CHECK (!E->blocked, "process %d: %s reported inside a larger interface of leaf %lld", me, what, (long long) *E->blockers.begin ());
    std::vector<std::string> have, want;
    for (auto & r : gs) have.push_back (text (r.tree, number (ent_of (r.ent)), r.hang, r.l));
    for (auto & s : E->sides) {
      std::vector<i64> l;
      for (auto & x : s.leaves) l.push_back (known (x.second) ? x.second : -1);
      want.push_back (text (s.tree, number (ent_of (s.ent)), !s.full, l));
    }
    std::string first = have[0];
    std::sort (have.begin (), have.end ()); std::sort (want.begin (), want.end ());
    std::string a, c; for (auto & s : have) a += " [" + s + "]"; for (auto & s : want) c += " [" + s + "]";
    CHECK (have == want, "process %d: %s has sides%s, expected%s", me, what, a.c_str (), c.c_str ());
    /* place relative to the tree, and the first side */
    Pt ct = key.second.second; int on = 0;
    for (int k = 0; k < DIM; ++k) on += ct.x[k] == 0 || ct.x[k] == RL;
    int want_b = on == 0 ? 0 : (int) btype_of (on);
    CHECK (boundary == want_b, "process %d: %s has tree boundary %d, expected %d", me, what, boundary, want_b);
    if (!on) {
      const Side *lo = &E->sides[0];
      for (auto & s : E->sides) if (s.box < lo->box) lo = &s;
      std::vector<i64> l; for (auto & x : lo->leaves) l.push_back (known (x.second) ? x.second : -1);
      CHECK (first == text (lo->tree, number (ent_of (lo->ent)), !lo->full, l), "process %d: the first side of %s is not the lowest: %s", me, what, first.c_str ());
    }
    eng::checks (gs.size ());
    return E;
  }
  void info (p4est_t *pp, p4est_ghost_t *gg, void *ud) {
    CHECK (pp == p && ud == magic, "callback with wrong forest or user data");
    CHECK (gg == g || (g == nullptr), "callback with wrong ghost layer");
  }
  Loc germ (int tree, const Pt & pt, i64 scale) const { return germ_of (b->conn, tree, pt, scale); }
};
static std::vector<Run *> runs;
static Run & R () { return *runs[sim::rank ()]; }
static void on_volume (p4est_iter_volume_info_t * info, void *ud) {
  Run & r = R (); r.info (info->p4est, info->ghost_layer, ud);
  i64 i = r.leaf (info->treeid, 0, info->quad, info->quadid, "volume");
  CHECK (i == r.b->cuts[r.me] + r.nvol, "process %d: volume %lld visited out of order", r.me, (long long) i);
  r.volseq.push_back (r.seq++); ++r.nvol; eng::checks ();
}
static void on_face (p4est_iter_face_info_t * info, void *ud) {
  Run & r = R (); r.info (info->p4est, info->ghost_layer, ud);
  std::vector<Run::Got> gs;
  int n = (int) info->sides.elem_count;
  CHECK (n == 1 || n == 2, "a face with %d sides", n);
  for (int k = 0; k < n; ++k) {
    auto *s = p4est_iter_fside_array_index_int (&info->sides, k);
    Run::Got g { (int) s->treeid, ent_face (s->face).index (), s->is_hanging != 0, {} };
    if (s->is_hanging) for (int j = 0; j < HALF; ++j) g.l.push_back (r.leaf (s->treeid, s->is.hanging.is_ghost[j], s->is.hanging.quad[j], s->is.hanging.quadid[j], "face"));
    else g.l.push_back (r.leaf (s->treeid, s->is.full.is_ghost, s->is.full.quad, s->is.full.quadid, "face"));
    gs.push_back (g);
  }
  Entity *E = r.visit (DIM - 1, gs, info->tree_boundary, "face");
  if (!E) return;
  int o = 0;
  if (n == 2 && info->tree_boundary) { auto *s = p4est_iter_fside_array_index_int (&info->sides, 0); o = r.b->conn.ttf[s->treeid * NF + s->face] / NF; }
  CHECK (info->orientation == o, "process %d: face orientation %d, expected %d", r.me, info->orientation, o);
  for (auto & g : gs) for (i64 i : g.l) if (i >= 0 && owner_of (r.b->cuts, i) == r.me) CHECK (r.onlyvol || i - r.b->cuts[r.me] < r.nvol, "process %d: face before the volume of its leaf %lld", r.me, (long long) i);
}
/* all entities of dimension d at the given leaf that contain entity e of it have been visited if they are due */
static void after (Run & r, i64 i, const Ent & e, int d, const char *what) {
  for (int x = 0; x < NENT; ++x) {
    Ent f = ent_of (x);
    if (f.dim () != d) continue;
    bool in = true; for (int a = 0; a < DIM; ++a) in = in && (f.c[a] == 2 || f.c[a] == e.c[a]);
    if (!in) continue;
    auto it = r.m->of.find ({ i, x });
    if (it == r.m->of.end ()) continue;
    Entity & E = r.m->ents[it->second];
    bool due = false; for (i64 j : E.all) due |= owner_of (r.b->cuts, j) == r.me;
    if (due && !E.blocked && r.complete (E)) CHECK (r.done.count (it->second), "process %d: %s visited before an interface around it of leaf %lld", r.me, what, (long long) i);
  }
}
#if VDIM == 3
static bool face_on, edge_on;
static void on_edge (p8est_iter_edge_info_t * info, void *ud) {
  Run & r = R (); r.info (info->p4est, info->ghost_layer, ud);
  std::vector<Run::Got> gs; std::vector<Loc> quarter; std::vector<std::array<Loc, 2>> fc; std::vector<int> qk;
  int n = (int) info->sides.elem_count;
  for (int k = 0; k < n; ++k) {
    auto *s = p8est_iter_eside_array_index_int (&info->sides, k);
    Ent e = ent_edge (s->edge);
    Run::Got g { (int) s->treeid, e.index (), s->is_hanging != 0, {} };
    if (s->is_hanging) for (int j = 0; j < 2; ++j) g.l.push_back (r.leaf (s->treeid, s->is.hanging.is_ghost[j], s->is.hanging.quad[j], s->is.hanging.quadid[j], "edge"));
    else g.l.push_back (r.leaf (s->treeid, s->is.full.is_ghost, s->is.full.quad, s->is.full.quadid, "edge"));
    gs.push_back (g);
  }
  Entity *E = r.visit (1, gs, info->tree_boundary, "edge");
  if (!E) return;
  std::map<int, std::pair<Loc, Loc>> dir;
  for (int k = 0; k < n; ++k) {
    auto *s = p8est_iter_eside_array_index_int (&info->sides, k);
    i64 i = -1; for (i64 j : gs[k].l) if (j >= 0) i = j;
    if (i < 0) continue;
    Leaf l = r.m->em.leaves[i].l; if (gs[k].hang) l = l.parent ();
    Pt c = EntityModel::center (l, ent_edge (s->edge)), q = c, v = c; i64 h = qlen (l.level); int a = s->edge / 4;
    for (int x = 0; x < 3; ++x) { q.x[x] *= 4; v.x[x] *= 4; }
    q.x[a] -= h; v.x[a] += h;
    dir[k] = { r.germ (s->treeid, q, 4), r.germ (s->treeid, v, 4) };
    int on = 0; for (int x = 0; x < 3; ++x) on += c.x[x] == 0 || c.x[x] == RL;
    if (on == 0) CHECK (s->orientation == 0, "process %d: edge inside a tree with orientation %d", r.me, s->orientation);
  }
  for (auto & x : dir) for (auto & y : dir) {
    if (x.first >= y.first) continue;
    auto *s = p8est_iter_eside_array_index_int (&info->sides, x.first), *t = p8est_iter_eside_array_index_int (&info->sides, y.first);
    bool same = x.second.first == y.second.first;
    CHECK (same || x.second.first == y.second.second, "edge sides do not meet");
    if (x.second.first < x.second.second || x.second.second < x.second.first)
      CHECK ((s->orientation == t->orientation) == same, "process %d: sides %d and %d of an edge have orientations %d and %d, directions %s", r.me, x.first, y.first, s->orientation, t->orientation, same ? "agree" : "differ");
    auto facec = [&] (p8est_iter_edge_side_t * z, int k, int j) {
      i64 i = -1; for (i64 w : gs[k].l) if (w >= 0) i = w;
      Leaf l = r.m->em.leaves[i].l; if (gs[k].hang) l = l.parent ();
      Ent e = ent_edge (z->edge); Pt c = EntityModel::center (l, e); int fa = p8est_edge_faces[z->edge][j] / 2;
      for (int x = 0; x < 3; ++x) c.x[x] = 2 * c.x[x] + (x == fa || e.c[x] == 2 ? 0 : e.c[x] ? -1 : 1);
      return r.germ (z->treeid, c, 2);
    };
    for (int j = 0; j < 2; ++j) for (int k = 0; k < 2; ++k)
      CHECK ((s->faces[j] == t->faces[k]) == (facec (s, x.first, j) == facec (t, y.first, k)), "process %d: faces of sides %d and %d of an edge: %d and %d", r.me, x.first, y.first, s->faces[j], t->faces[k]);
  }
  if (face_on) for (auto & s : E->sides) for (auto & x : s.leaves) after (r, x.second, ent_of (s.ent), 2, "edge");
}
#endif
static bool fon, eon;
static void on_corner (p4est_iter_corner_info_t * info, void *ud) {
  Run & r = R (); r.info (info->p4est, info->ghost_layer, ud);
  std::vector<Run::Got> gs;
  int n = (int) info->sides.elem_count;
  for (int k = 0; k < n; ++k) {
    auto *s = p4est_iter_cside_array_index_int (&info->sides, k);
    gs.push_back (Run::Got { (int) s->treeid, ent_corner (s->corner).index (), false, { r.leaf (s->treeid, s->is_ghost, s->quad, s->quadid, "corner") } });
  }
  Entity *E = r.visit (0, gs, info->tree_boundary, "corner");
  if (!E) return;
  /* shared faces and edges around the corner */
  std::vector<std::array<Loc, 6>> germs (n);
  for (int k = 0; k < n; ++k) {
    auto *s = p4est_iter_cside_array_index_int (&info->sides, k);
    if (gs[k].l[0] < 0) continue;
    Pt c = EntityModel::center (r.m->em.leaves[gs[k].l[0]].l, ent_corner (s->corner));
    for (int a = 0; a < DIM; ++a) {
      Pt f, e;
      for (int x = 0; x < DIM; ++x) { int d = (s->corner >> x) & 1 ? -1 : 1; f.x[x] = 2 * c.x[x] + (x == a ? 0 : d); e.x[x] = 2 * c.x[x] + (x == a ? d : 0); }
      germs[k][a] = r.germ (s->treeid, f, 2); germs[k][3 + a] = r.germ (s->treeid, e, 2);
    }
  }
  for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) {
    if (k == j || gs[k].l[0] < 0 || gs[j].l[0] < 0) continue;
    auto *s = p4est_iter_cside_array_index_int (&info->sides, k), *t = p4est_iter_cside_array_index_int (&info->sides, j);
    for (int a = 0; a < DIM; ++a) for (int c = 0; c < DIM; ++c) {
      CHECK ((s->faces[a] == t->faces[c]) == (germs[k][a] == germs[j][c]), "process %d: faces %d and %d of sides %d and %d of a corner are %d and %d", r.me, a, c, k, j, s->faces[a], t->faces[c]);
#if VDIM == 3
      CHECK ((s->edges[a] == t->edges[c]) == (germs[k][3 + a] == germs[j][3 + c]), "process %d: edges %d and %d of sides %d and %d of a corner are %d and %d", r.me, a, c, k, j, s->edges[a], t->edges[c]);
#endif
    }
  }
  for (auto & s : E->sides) for (auto & x : s.leaves) {
    if (DIM == 3 && eon) after (r, x.second, ent_of (s.ent), 1, "corner");
    if (DIM == 2 && fon) after (r, x.second, ent_of (s.ent), 1, "corner");
  }
}
void prop () {
  Built b; BuildOpts o; o.maxleaves = thorough () ? 600 : DIM == 3 ? 180 : 250;
  int bal = DIM == 3 ? (int[]) { 3, 2, 1 } [weighted ({ 60, 25, 15 })] : weighted ({ 70, 30 }) ? 1 : 2;
  o.balance_codim = bal;
  o.wide = 100;
  draw_built (b, o);
  /* face balance permits faces only in 3D */
  int lowest = DIM == 3 && bal == 1 ? 2 : 0;
  int codim = (int[]) { DIM, 0, 1, 2 } [weighted ({ 60, 15, 15, DIM == 3 ? 10 : 0 })];
  unsigned mask = chance (30) ? 1 + (unsigned) draw (15) : 15;
  if (lowest) mask &= 3;
  if (DIM == 2) mask &= ~4u;
  Model m; m.init (b, lowest);
  bool hang = false, multi = false;
  for (auto & e : m.ents) { hang |= e.second.blocked; for (auto & s : e.second.sides) hang |= !s.full; std::set<int> own; for (i64 i : e.second.all) own.insert (owner_of (b.cuts, i)); multi |= own.size () > 1; }
  if (hang || multi) nontrivial ();
  label (hang ? "hanging" : "conforming"); label ("ghost layer %d", codim); if (multi) label ("across processes");
  int remote = weighted ({ 50, 15, 35 }) - 1;
  describe ("ghost codim %d, callbacks %x%s; ", codim, mask, remote == 1 ? ", remote" : remote == 0 ? ", not remote" : "");
  if (remote == 1) label ("remotely touched");
  GhostModel gm; if (codim) gm.init (b, codim);
  runs.assign (b.cfg.P, nullptr);
#if VDIM == 3
  face_on = mask & 2; edge_on = mask & 4;
#endif
  fon = mask & 2; eon = mask & 4;
  MemMark mm = mem_mark ();
  sim::Report rep;
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    p4est_ghost_t *g = codim ? p4est_ghost_new (p, btype_of (codim)) : nullptr;
    Run r; r.b = &b; r.m = &m; r.gm = &gm; r.p = p; r.g = g; r.me = me; r.codim = codim; r.magic = &r; r.onlyvol = !(mask & 1);
    if (g) for (size_t k = 0; k < g->ghosts.elem_count; ++k) { auto *q = p4est_quadrant_array_index (&g->ghosts, k); int t = q->p.piggy3.which_tree; r.gl.push_back (m.em.off[t] + b.forest.find (t, leaf_of (q).key)); }
    runs[me] = &r;
    r.remote = remote;
    if (remote == 1) for (i64 i = b.cuts[me]; i < b.cuts[me + 1]; ++i) for (int x = 0; x < NENT; ++x) {
      Ent e = ent_of (x); if (e.dim () == DIM || e.dim () == 0 || e.dim () < lowest) continue;
      const GL & gl = m.em.leaves[i];
      if (!m.em.hangs (i, e)) continue;
      Ent s = EntityModel::smallest (gl.l, e); if (s.dim () > e.dim ()) continue;
      for (int y = 0; y < NENT; ++y) { /* the boundary of the larger face or edge */
        Ent u = ent_of (y); if (u.dim () >= s.dim ()) continue;
        bool in = true; for (int a = 0; a < DIM; ++a) in &= s.c[a] == 2 || s.c[a] == u.c[a];
        if (in) r.rtouch.insert ({ u.dim (), m.em.canon (gl.tree, EntityModel::center (gl.l.parent (), u)) });
      }
    }
    if (remote < 0) p4est_iterate (p, g, &r, mask & 1 ? on_volume : nullptr, mask & 2 ? on_face : nullptr,
#if VDIM == 3
                   mask & 4 ? on_edge : nullptr,
#endif
                   mask & 8 ? on_corner : nullptr);
    else p4est_iterate_ext (p, g, &r, mask & 1 ? on_volume : nullptr, mask & 2 ? on_face : nullptr,
#if VDIM == 3
                   mask & 4 ? on_edge : nullptr,
#endif
                   mask & 8 ? on_corner : nullptr, remote);
    if (remote == 1 && codim == DIM) for (auto & k : r.rtouch) {
      auto it = m.ents.find (k); if (it == m.ents.end () || it->second.blocked || !(mask & (k.first == 0 ? 8 : k.first == DIM - 1 ? 0 : 4))) continue;
      CHECK (r.seen.count (k), "process %d: interface of dimension %d of leaf %lld at the end of a local hanging one was not visited", me, k.first, (long long) *it->second.all.begin ());
      eng::checks ();
    }
    if (mask & 1) CHECK (r.nvol == b.cuts[me + 1] - b.cuts[me], "process %d: %d volumes visited of %lld", me, r.nvol, (long long) (b.cuts[me + 1] - b.cuts[me]));
    for (auto & e : m.ents) {
      int d = e.first.first;
      if (e.second.blocked || !(mask & (d == DIM - 1 ? 2 : d == 0 ? 8 : 4))) continue;
      bool due = false; for (i64 i : e.second.all) due |= owner_of (b.cuts, i) == me;
      if (due && r.complete (e.second)) CHECK (r.done.count (e.first), "process %d: interface of dimension %d of leaf %lld was not visited", me, d, (long long) *e.second.all.begin ());
      eng::checks ();
    }
    for (auto & x : m.of) {
      int d = ent_of (x.first.second).dim ();
      if (owner_of (b.cuts, x.first.first) != me || !(mask & (d == DIM - 1 ? 2 : d == 0 ? 8 : 4))) continue;
      CHECK (r.covered.count (x.first), "process %d: interface %d of dimension %d of leaf %lld was not visited", me, number (ent_of (x.first.second)), d, (long long) x.first.first);
    }
    if (g) p4est_ghost_destroy (g);
    compare (p, b, "after iteration");
    destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mm, "after iteration");
}
}
