/* Ghost data exchange, expansion by layers, and lookups in the ghost layer */
#include "ghost_common.h"
#include "topo.h"
namespace DNS {
using namespace eng;
struct Ex { int kind = 0; size_t size = 0; int minl = 0, maxl = QML; bool split = false; u64 seed = 0;
  size_t bytes (const Built & b) const { return kind == 0 ? (b.data_size ? b.data_size : sizeof (void *)) : size; }
  bool in (int level) const { return kind < 2 || (level >= minl && level <= maxl); }
  u64 tag (const Built & b, i64 g) const { return kind == 0 ? b.leaves[g].l.tag : mix (seed, (u64) g); } };
struct Query { int kind; i64 leaf; int dir, dl, child, proc; };   /* about a neighbor of some leaf */

struct Run {
  const Built & b; const GhostModel & m; p4est_t *p; p4est_ghost_t *g; int me;
  std::vector<i64> mirrors, ghosts;
  Run (const Built & bb, const GhostModel & mm, p4est_t * pp, p4est_ghost_t * gg) : b (bb), m (mm), p (pp), g (gg), me (sim::rank ()) {
    ghosts.assign (m.ghosts[me].begin (), m.ghosts[me].end ());
    std::set<i64> s;
    for (int q = 0; q < b.cfg.P; ++q) if (q != me) for (auto it = m.ghosts[q].lower_bound (b.cuts[me]); it != m.ghosts[q].end () && *it < b.cuts[me + 1]; ++it) s.insert (*it);
    mirrors.assign (s.begin (), s.end ());
  }
  struct Pending { const Ex *e; p4est_ghost_exchange_t *x = nullptr; unsigned char *data = nullptr; };
  std::vector<unsigned char *> mdata; std::vector<void *> mptr;
  Pending begin (const Ex & e) {
    Pending r; r.e = &e;
    size_t n = e.bytes (b), tot = n * ghosts.size ();
    r.data = (unsigned char *) malloc (tot + 1);
    memset (r.data, 0xa7, tot + 1);
    mptr.assign (mirrors.size () + 1, nullptr);
    std::vector<unsigned char *> own;
    if (e.kind) for (size_t i = 0; i < mirrors.size (); ++i) {
      if (!e.in (b.leaves[mirrors[i]].l.level)) { mptr[i] = (void *) 16; continue; }
      unsigned char *d = (unsigned char *) malloc (n + 1); own.push_back (d);
      fill_bytes (d, n, e.tag (b, mirrors[i])); mptr[i] = d;
    }
    if (!e.split) {
      if (e.kind == 0) p4est_ghost_exchange_data (p, g, r.data);
      else if (e.kind == 1) p4est_ghost_exchange_custom (p, g, n, mptr.data (), r.data);
      else p4est_ghost_exchange_custom_levels (p, g, e.minl, e.maxl, n, mptr.data (), r.data);
    }
    else if (e.kind == 0) r.x = p4est_ghost_exchange_data_begin (p, g, r.data);
    else if (e.kind == 1) r.x = p4est_ghost_exchange_custom_begin (p, g, n, mptr.data (), r.data);
    else r.x = p4est_ghost_exchange_custom_levels_begin (p, g, e.minl, e.maxl, n, mptr.data (), r.data);
    /* the mirror data may be discarded now */
    for (auto *d : own) { memset (d, 0xee, n + 1); free (d); }
    return r;
  }
  void end (Pending & r) {
    const Ex & e = *r.e;
    if (e.split) { if (e.kind == 0) p4est_ghost_exchange_data_end (r.x); else if (e.kind == 1) p4est_ghost_exchange_custom_end (r.x); else p4est_ghost_exchange_custom_levels_end (r.x); }
    size_t n = e.bytes (b);
    for (size_t i = 0; i < ghosts.size (); ++i) {
      const GL & l = b.leaves[ghosts[i]];
      unsigned char *d = r.data + n * i;
      if (e.in (l.l.level)) CHECK (check_bytes (d, n, e.tag (b, ghosts[i])), "process %d: exchange kind %d size %zu%s delivered wrong bytes for ghost %s of process %d", me, e.kind, n, e.split ? " split" : "",
                                   str (l.tree, l.l).c_str (), m.owner (ghosts[i]));
      else for (size_t k = 0; k < n; ++k) CHECK (d[k] == 0xa7, "process %d: exchange of levels %d to %d wrote to ghost %s", me, e.minl, e.maxl, str (l.tree, l.l).c_str ());
    }
    CHECK (r.data[n * ghosts.size ()] == 0xa7, "exchange wrote past the end");
    free (r.data);
    eng::checks (ghosts.size () + 1);
  }
  /* index of the leaf exactly at this place, or -1 */
  i64 leaf_at (int tree, const Pt & x, int level) const {
    Key k = interleave (x.x);
    int j = b.forest.find (tree, k);
    const Leaf & l = b.forest.t[tree][j];
    return l.key == k && l.level == level ? tree_offset (b.forest, tree) + j : -1;
  }
  i64 cover (int tree, const Pt & x) const { return tree_offset (b.forest, tree) + b.forest.find (tree, interleave (x.x)); }
  int ghost_pos (i64 gidx) const { auto it = std::lower_bound (ghosts.begin (), ghosts.end (), gidx); return it != ghosts.end () && *it == gidx ? (int) (it - ghosts.begin ()) : -1; }
  i64 local_in_tree (i64 gidx) const { return gidx - std::max (tree_offset (b.forest, b.leaves[gidx].tree), b.cuts[me]); }
  void query (const Query & q) {
    const GL & l = b.leaves[q.leaf];
    if (q.kind == 0) {          /* bsearch and contains */
      Leaf s = l.l;
      if (q.dl < 0 && s.level > 0) s = s.parent ();
      else for (int i = 0; i < q.dl && s.level < QML; ++i) s = s.child (q.child);
      p4est_quadrant_t x = quad_of (s);
      Pt at = deinterleave (s.key);
      i64 e = leaf_at (l.tree, at, s.level), cov = cover (l.tree, at);
      int own = q.proc == -1 ? -1 : q.proc;
      auto pos = [&] (i64 i) { return i >= 0 && (own < 0 || m.owner (i) == own) ? ghost_pos (i) : -1; };
      ssize_t r = p4est_ghost_bsearch (g, own, l.tree, &x);
      CHECK (r == pos (e), "process %d: p4est_ghost_bsearch for %s, owner %d, returns %zd, expected %d", me, str (l.tree, s).c_str (), own, r, pos (e));
      int want = b.leaves[cov].l.level <= s.level ? pos (cov) : -1;
      r = p4est_ghost_contains (g, own, l.tree, &x);
      CHECK (r == want, "process %d: p4est_ghost_contains for %s, owner %d, returns %zd, expected %d", me, str (l.tree, s).c_str (), own, r, want);
      if (b.conn.nt == 1) { r = p4est_ghost_bsearch (g, own, -1, &x); CHECK (r == pos (e), "process %d: p4est_ghost_bsearch without tree returns %zd, expected %d", me, r, pos (e)); }
      eng::checks (2);
      return;
    }
    /* a neighbor box of the same, half or double size */
    int level = l.l.level + q.dl;
    if (level < 0 || level > QML) return;
    i64 h = qlen (level), H = qlen (l.l.level);
    const int *d = direction (q.dir);
    Pt base = deinterleave (l.l.key), n;
    if (q.dl < 0) { Pt par = base; for (int a = 0; a < DIM; ++a) par.x[a] &= ~(h - 1);
      for (int a = 0; a < DIM; ++a) n.x[a] = par.x[a] + d[a] * h;
      for (int a = 0; a < DIM; ++a) if (d[a] && ((l.l.childid () >> a) & 1) != (d[a] > 0)) return; }
    else for (int a = 0; a < DIM; ++a) n.x[a] = d[a] < 0 ? base.x[a] - h : d[a] > 0 ? base.x[a] + H : base.x[a] + (((q.child >> a) & 1) ? H - h : 0);
    int out = outside_mask (n), nout = __builtin_popcount (out), cd = dir_codim (d);
    p4est_quadrant_t x = raw_quad (n, level);
    auto im = strict_images (b.conn, l.tree, n, h);
    if (q.kind == 1) {          /* p4est_quadrant_exists */
      struct Hit { int tree; Pt at; int proc, lnid; bool operator< (const Hit & o) const { return tree != o.tree ? tree < o.tree : !(at == o.at) ? at < o.at : proc != o.proc ? proc < o.proc : lnid < o.lnid; } };
      std::vector<Hit> want, got;
      bool any = false;
      for (auto & i : im) {
        i64 e = leaf_at (i.first, i.second, level), cov = cover (i.first, i.second);
        int own = m.owner (cov);
        int ln = e < 0 ? -1 : own == me ? (int) local_in_tree (e) : ghost_pos (e);
        want.push_back ({ i.first, i.second, own, ln });
        any |= ln >= 0;
      }
      sc_array_t ea, pa, qa;
      sc_array_init (&ea, sizeof (int)); sc_array_init (&pa, sizeof (int)); sc_array_init (&qa, sizeof (p4est_quadrant_t));
      for (int i = 0; i < q.child; ++i) { *(int *) sc_array_push (&ea) = -7; *(int *) sc_array_push (&pa) = -7; memset (sc_array_push (&qa), 0x55, sizeof (p4est_quadrant_t)); } /* what the arrays hold is dropped */
      int r = p4est_quadrant_exists (p, g, l.tree, &x, &ea, &pa, &qa);
      std::string c = "process " + std::to_string (me) + ": p4est_quadrant_exists for tree " + std::to_string (l.tree) + " " + str (n) + " level " + std::to_string (level);
      CHECK (!!r == any, "%s is %d, expected %d", c.c_str (), r, any);
      CHECK (qa.elem_count == want.size () && pa.elem_count == want.size (), "%s returns %zu places, expected %zu", c.c_str (), qa.elem_count, want.size ());
      for (size_t i = 0; i < qa.elem_count; ++i) {
        p4est_quadrant_t *y = p4est_quadrant_array_index (&qa, i);
        CHECK (y->level == level, "%s: wrong level", c.c_str ());
        got.push_back ({ (int) y->p.piggy3.which_tree, raw_pt (y), *(int *) sc_array_index (&pa, i), y->p.piggy3.local_num });
        if (nout > 1) CHECK (ea.elem_count == want.size () && !!*(int *) sc_array_index (&ea, i) == (y->p.piggy3.local_num >= 0), "%s: existence flags are inconsistent", c.c_str ());
      }
      std::sort (want.begin (), want.end ()); std::sort (got.begin (), got.end ());
      for (size_t i = 0; i < got.size (); ++i) CHECK (!(got[i] < want[i]) && !(want[i] < got[i]), "%s: place t%d %s owner %d number %d, expected t%d %s owner %d number %d", c.c_str (), got[i].tree, str (got[i].at).c_str (),
               got[i].proc, got[i].lnid, want[i].tree, str (want[i].at).c_str (), want[i].proc, want[i].lnid);
      sc_array_reset (&ea); sc_array_reset (&pa); sc_array_reset (&qa);
      eng::checks ();
      return;
    }
    if (cd != 1) return;
    int f = 0;
    for (int a = 0; a < DIM; ++a) if (d[a]) f = 2 * a + (d[a] > 0);
    int hang = face_corner (f, q.child % HALF), wh = q.child % HALF, nf = f ^ 1, own = -7, *ph = q.proc & 1 ? &hang : nullptr;
    if (nout) {
      if (b.conn.fmap[l.tree * NF + f].boundary) nf = wh = -1;
      else {
        nf = b.conn.ttf[l.tree * NF + f];
        int k = corner_across (b.conn, l.tree, f, hang);
        for (int i = 0; i < HALF; ++i) if (face_corner (nf % NF, i) == k) wh = i;
      }
    }
    int face = f;
    p4est_locidx_t r = p4est_face_quadrant_exists (p, g, l.tree, &x, &face, ph, &own);
    std::string c = "process " + std::to_string (me) + ": p4est_face_quadrant_exists across face " + std::to_string (f) + " of tree " + std::to_string (l.tree) + " " + str (n) + " level " + std::to_string (level);
    CHECK (face == nf, "%s: face code %d, expected %d", c.c_str (), face, nf);
    if (ph) CHECK (hang == wh, "%s: hanging face %d, expected %d", c.c_str (), hang, wh);
    if (im.empty ()) { CHECK (r == -2, "%s: returns %d at the boundary", c.c_str (), r); eng::checks (); return; }
    i64 e = leaf_at (im[0].first, im[0].second, level), cov = cover (im[0].first, im[0].second);
    int wo = m.owner (cov);
    i64 ln = e < 0 ? -1 : wo == me ? e - b.cuts[me] : ghost_pos (e) >= 0 ? e - b.cuts[wo] : -1;
    CHECK (r == ln, "%s: returns %d, expected %lld", c.c_str (), r, (long long) ln);
    if (ln >= 0) CHECK (own == wo, "%s: owner %d, expected %d", c.c_str (), own, wo);
    eng::checks ();
  }
};
void prop () {
  Built b; BuildOpts o; o.balance_any = true; o.maxleaves = thorough () ? 700 : 220;
  o.wide = 60; draw_built (b, o);
  int codim = range (1, DIM), layers = weighted ({ 30, 40, 20, 10 });
  std::vector<GhostModel> m (layers + 1);
  m[0].init (b, codim);
  for (int i = 1; i <= layers; ++i) { m[i] = m[i - 1]; m[i].expand (); }
  std::vector<Ex> ex (range (0, 4));
  std::string txt;
  for (auto & e : ex) {
    static const int sz[] = { 4, 1, 8, 13, 64, 300, 0, 1000 };
    e.kind = (int) draw (3); e.size = (size_t) sz[draw (8)]; e.split = draw (2); e.seed = draw (1 << 20);
    if (e.kind == 2) { int ml = b.forest.maxlevel (); e.minl = range (-1, ml); e.maxl = range (-1, ml + 1); if (chance (10)) e.maxl = QML + 3; }
    txt += " " + std::string (e.kind == 0 ? "data" : e.kind == 1 ? "custom" : "levels") + (e.split ? "/split" : "") + (e.kind ? " " + std::to_string (e.size) : "") + (e.kind == 2 ? " [" + std::to_string (e.minl) + "," + std::to_string (e.maxl) + "]" : "");
    label (e.kind == 0 ? "exchange data" : e.kind == 1 ? "exchange custom" : "exchange levels");
  }
  u64 endseed = draw (1 << 20);
  std::vector<Query> qs (range (0, 40));
  for (auto & q : qs) { q.kind = (int) draw (3); q.leaf = (i64) draw (b.leaves.size ()); q.dir = (int) draw (NDIR); q.dl = range (-1, 1); q.child = (int) draw (NCH); q.proc = range (-1, b.cfg.P - 1); }
  for (auto & g : m[0].ghosts) if (g.size ()) { nontrivial (); break; }
  bool grew = false; for (int i = 1; i <= layers; ++i) for (auto & l : m[i].last) grew |= !l.empty ();
  if (grew) label ("expansion adds ghosts");
  describe ("codim %d, %d expansions, exchanges:%s, %zu queries; ", codim, layers, txt.c_str (), qs.size ());
  MemMark mm = mem_mark ();
  sim::Report rep;
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    if (b.data_size == 0) {     /* the pointer itself is transferred */
      i64 gi = b.cuts[me];
      if (p->first_local_tree >= 0) for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
        p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
        for (size_t z = 0; z < tr->quadrants.elem_count; ++z, ++gi) fill_bytes (&p4est_quadrant_array_index (&tr->quadrants, z)->p.user_data, sizeof (void *), b.leaves[gi].l.tag);
      }
    }
    p4est_ghost_t *g = p4est_ghost_new (p, btype_of (codim));
    for (int k = 0; k <= layers; ++k) {
      if (k) p4est_ghost_expand (p, g);
      check_ghost (g, m[k], k > 0, k ? "expanded ghost layer" : "ghost layer");
      Run r (b, m[k], p, g);
      if (k == layers || (endseed & 1)) {
        std::vector<Run::Pending> pend;
        for (auto & e : ex) { pend.push_back (r.begin (e)); if (!e.split) { r.end (pend.back ()); pend.pop_back (); } }
        while (!pend.empty ()) { size_t i = mix (endseed, (u64) me, pend.size ()) % pend.size (); r.end (pend[i]); pend.erase (pend.begin () + (long) i); }
      }
      for (auto & q : qs) r.query (q);
      CHECK (p4est_ghost_is_valid (p, g), "ghost layer is reported invalid");
    }
    compare (p, b.conn, b.forest, b.cuts, b.data_size > 0, "after the exchange");
    p4est_ghost_destroy (g);
    destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mm, "after destroying ghost layer and forest");
}
}
