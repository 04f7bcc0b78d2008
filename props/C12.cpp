/* The ghost layer and its mirrors against adjacency computed from the global mesh */
#include "ghost_common.h"
namespace DNS {
using namespace eng;
/* deepen the mesh next to one interface of two or more trees and balance it across everything but that kind of interface */
static void sharpen (Built & b, i64 cap) {
  struct At { int t; Pt p; };
  int cod = range (2, DIM);
  auto & cls = DIM == 3 && cod == 2 ? b.conn.edges : b.conn.corners;
  std::vector<int> nz; for (size_t i = 0; i < cls.size (); ++i) if (cls[i].size () > 1) nz.push_back ((int) i);
  if (nz.empty ()) return;
  i64 along = (i64) draw (1 << QML) << 1;
  std::vector<At> at;
  for (auto & m : cls[pick (nz)]) {
    if (!chance (60)) continue;
    At a; a.t = m.tree;
    if (cod == DIM) for (int k = 0; k < DIM; ++k) a.p.x[k] = (m.idx >> k) & 1 ? RL - 1 : 0;
#if VDIM == 3
    else { int e = m.idx, nax = e / 4, kk = 0; for (int k = 0; k < 3; ++k) a.p.x[k] = k == nax ? (m.o ? RL - 1 - along : along) : ((e % 4) >> kk++) & 1 ? RL - 1 : 0; }
#endif
    at.push_back (a);
  }
  Forest f = b.forest;
  TagFn tag = [&b] (int t, const Leaf & l) { return b.tag (t, l); };
  int base = 0;
  if (!at.empty ()) base = f.t[at[0].t][f.find (at[0].t, interleave (at[0].p.x))].level;
  std::string txt;
  for (auto & a : at) {
    Key key = interleave (a.p.x);
    int L = chance (12) ? QML : std::min<int> (QML, base + range (1, 3));
    for (;;) {
      int i = f.find (a.t, key); Leaf l = f.t[a.t][i];
      if (l.level >= L) break;
      std::vector<Leaf> ch; for (int c = 0; c < NCH; ++c) { Leaf k = l.child (c); k.tag = tag (a.t, k); ch.push_back (k); }
      auto & v = f.t[a.t]; v.erase (v.begin () + i); v.insert (v.begin () + i, ch.begin (), ch.end ());
    }
    txt += " t" + std::to_string (a.t) + ":" + std::to_string (L);
  }
  if (txt.empty ()) return;
  bool over = false; balance (f, cod - 1, tag, cap, &over);
  if (over) return;
  b.forest = f; b.leaves = flat (b.forest); b.cuts = draw_forest_cuts (b.leaves, b.cfg.P);
  label ("fine next to an interface of trees");
  describe ("sharpened at%s, codimension %d, %zu leaves; ", txt.c_str (), cod, b.leaves.size ());
}
/* p4est_ghost_is_valid notices damaged layers: damage that each process sees
   by itself goes to all processes (the function returns early for it), damage
   seen by comparing with the owner goes to one ghost of one process */
static void damaged (const Built & b, int codim) {
  int P = b.cfg.P, nt = b.conn.nt; u64 wh = draw (1 << 20); bool wire = draw (4) == 3; int bad = (int) draw (P);
  std::vector<int> kind (P); for (int & k : kind) k = (int) draw (11);
  std::vector<std::string> did (P); std::vector<int> res (P, -1);
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    p4est_ghost_t *g = p4est_ghost_new (p, btype_of (codim));
    CHECK (p4est_ghost_is_valid (p, g), "process %d: p4est_ghost_is_valid is false", me);
    i64 ng = (i64) g->ghosts.elem_count, nm = (i64) g->mirrors.elem_count;
    auto ghost = [&] (i64 i) { return p4est_quadrant_array_index (&g->ghosts, (size_t) i); };
    auto mirror = [&] (i64 i) { return p4est_quadrant_array_index (&g->mirrors, (size_t) i); };
    if (wire) {                 /* the last ghost is refined: the order stays */
      if (me == bad && ng) { p4est_quadrant_t *q = ghost (ng - 1); if (q->level < QML && q->level != 18) { ++q->level; did[me] = "level of a ghost"; } }
    }
    else for (int k = kind[me];; k = k ? k - 1 : 10) {
      i64 i = -1;
      switch (k) {
      case 0: g->tree_offsets[nt] += wh & 1 ? 1 : -1; did[me] = "end of the ghosts by tree"; break;
      case 1: g->proc_offsets[P] += wh & 1 ? 1 : -1; did[me] = "end of the ghosts by process"; break;
      case 2: g->mirror_tree_offsets[nt] += wh & 1 ? 1 : -1; did[me] = "end of the mirrors by tree"; break;
      case 3: if (ng < 2) continue; i = (i64) (wh % (u64) (ng - 1)); { p4est_quadrant_t x = *ghost (i); *ghost (i) = *ghost (i + 1); *ghost (i + 1) = x; std::swap (ghost (i)->p.piggy3.local_num, ghost (i + 1)->p.piggy3.local_num); } did[me] = "order of the ghosts"; break;
      case 4: if (nm < 2) continue; i = (i64) (wh % (u64) (nm - 1)); { p4est_quadrant_t x = *mirror (i); *mirror (i) = *mirror (i + 1); *mirror (i + 1) = x; std::swap (mirror (i)->p.piggy3.local_num, mirror (i + 1)->p.piggy3.local_num); } did[me] = "order of the mirrors"; break;
      case 5: if (nm < 2) continue; i = (i64) (wh % (u64) (nm - 1)); std::swap (mirror (i)->p.piggy3.local_num, mirror (i + 1)->p.piggy3.local_num); did[me] = "numbers of the mirrors"; break;
      case 6: if (nt < 2) continue; g->tree_offsets[1 + wh % (u64) (nt - 1)] = (p4est_locidx_t) ng + 1; did[me] = "ghosts by tree"; break;
      case 7: if (P < 2) continue; g->proc_offsets[1 + wh % (u64) (P - 1)] = (p4est_locidx_t) ng + 1; did[me] = "ghosts by process"; break;
      case 8: if (nt < 2) continue; g->mirror_tree_offsets[1 + wh % (u64) (nt - 1)] = (p4est_locidx_t) nm + 1; did[me] = "mirrors by tree"; break;
      case 9: if (P < 2) continue; g->mirror_proc_offsets[1 + wh % (u64) (P - 1)] = g->mirror_proc_offsets[P] + 1; did[me] = "mirrors by process"; break;
      default: {
        std::vector<std::pair<p4est_locidx_t *, p4est_locidx_t *>> c;
        for (int q = 0; q < P; ++q) {
          for (int z = g->proc_offsets[q]; z + 1 < g->proc_offsets[q + 1]; ++z) c.push_back ({ &ghost (z)->p.piggy3.local_num, &ghost (z + 1)->p.piggy3.local_num });
          for (int z = g->mirror_proc_offsets[q]; z + 1 < g->mirror_proc_offsets[q + 1]; ++z) c.push_back ({ g->mirror_proc_mirrors + z, g->mirror_proc_mirrors + z + 1 });
        }
        if (c.empty ()) continue;
        auto x = c[wh % c.size ()]; std::swap (*x.first, *x.second); did[me] = "numbers of the ghosts or of the mirrors for a process"; }
      }
      break;
    }
    sim::host_barrier ();
    res[me] = p4est_ghost_is_valid (p, g);
    sim::host_barrier ();
    CHECK (!!res[me] == did[me].empty (), "process %d: p4est_ghost_is_valid is %d, damaged: %s", me, res[me], did[me].empty () ? "nothing" : did[me].c_str ());
    p4est_ghost_destroy (g); destroy (p);
  });
  for (auto & d : did) if (!d.empty ()) { label ("damaged: %s", d.c_str ()); nontrivial (); }
}
void prop () {
  Built b; BuildOpts o; o.balance_any = true; o.maxleaves = thorough () ? 900 : 260; o.data = chance (30);
  o.wide = 60;
  draw_built (b, o);
  if (chance (35)) sharpen (b, 2 * o.maxleaves);
  std::vector<int> codims;
  for (int c = 1; c <= DIM; ++c) codims.push_back (c);
  if (chance (60)) codims = { range (1, DIM) };
  std::vector<GhostModel> m (codims.size ());
  for (size_t i = 0; i < m.size (); ++i) m[i].init (b, codims[i]);
  for (auto & g : m[0].ghosts) if (g.size ()) { nontrivial (); break; }
  std::vector<int> bal (DIM + 1);
  for (int c = 1; c <= DIM; ++c) bal[c] = is_balanced (b.forest, c);
  label (bal[DIM] ? "fully balanced" : bal[1] ? "face balanced" : "unbalanced");
  bool corner_class = false; for (auto & c : b.conn.corners) corner_class |= !c.empty ();
  if (corner_class) label ("corner between trees");
  std::string hist;
  for (int c : codims) hist += " " + std::to_string (c);
  describe ("ghosts of codimension%s; ", hist.c_str ());
  int sens = chance (40) ? (int) draw (b.cfg.P) : -1, sfield = (int) draw (DIM + 5); u64 swhich = draw (1 << 20);
  if (chance (8)) { damaged (b, codims[0]); return; }
  MemMark mm = mem_mark ();
  sim::Report rep;
  std::vector<unsigned> sums (b.cfg.P);
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    std::vector<p4est_ghost_t *> gs;
    for (size_t i = 0; i < m.size (); ++i) {
      p4est_ghost_t *g = p4est_ghost_new (p, btype_of (codims[i]));
      check_ghost (g, m[i], false, "ghost layer");
      CHECK (g->mirror_proc_fronts == nullptr || g->mirror_proc_front_offsets != nullptr, "inconsistent fronts");
      gs.push_back (g);
    }
    for (auto *& g : gs) {
      CHECK (p4est_ghost_is_valid (p, g), "process %d: p4est_ghost_is_valid is false", me);
      unsigned s = p4est_ghost_checksum (p, g);
      sums[me] = s;
      sim::host_barrier ();
      CHECK (s == 0 || s == sums[0], "ghost checksum %08x on process %d but %08x on process 0", s, me, sums[0]);
      sim::host_barrier ();
      if (sens < 0) continue;
      /* the checksum changes with every field of a ghost and with the offsets */
      bool changed = true;
      if (me == sens) {
        p4est_quadrant_t *q = g->ghosts.elem_count ? p4est_quadrant_array_index (&g->ghosts, swhich % g->ghosts.elem_count) : nullptr;
        if (sfield < DIM + 3 && !q) changed = false;
        else if (sfield < DIM) { if (q->level) { p4est_qcoord_t *x = sfield == 0 ? &q->x : &q->y; D3 (if (sfield == 2) x = &q->z;) *x ^= (p4est_qcoord_t) qlen (q->level); } else changed = false; }
        else if (sfield == DIM) { if (q->level != 18 && q->level < QML) ++q->level; else changed = false; }
        else if (sfield == DIM + 1) { if (b.conn.nt > 1) q->p.piggy3.which_tree = (q->p.piggy3.which_tree + 1) % b.conn.nt; else changed = false; }
        else if (sfield == DIM + 2) ++q->p.piggy3.local_num;
        else if (sfield == DIM + 3) ++g->tree_offsets[swhich % (u64) (b.conn.nt + 1)];
        else ++g->proc_offsets[swhich % (u64) (b.cfg.P + 1)];
      }
      static int did; if (me == sens) did = changed;
      sim::host_barrier ();
      unsigned s2 = p4est_ghost_checksum (p, g);
      if (me == 0) { static const char *fn[] = { "x", "y",
#if VDIM == 3
        "z",
#endif
        "level", "tree", "number", "tree offset", "process offset" }; CHECK ((s2 != s) == !!did, "changing %s of the ghost layer of process %d: checksum %08x and %08x", fn[sfield], sens, s, s2); }
      sim::host_barrier ();
      p4est_ghost_destroy (g);
      g = p4est_ghost_new (p, btype_of (codims[(size_t) (&g - gs.data ())]));
    }
    for (int c = 1; c <= DIM; ++c) CHECK (!!p4est_is_balanced (p, btype_of (c)) == !!bal[c], "process %d: p4est_is_balanced for codimension %d is %d", me, c, !bal[c]);
    compare (p, b, "after building ghosts");
    for (auto *g : gs) p4est_ghost_destroy (g);
    p4est_ghost_t *g = p4est_ghost_new_local (p, btype_of (codims[0]));
    CHECK (g->ghosts.elem_count == 0 && g->mirrors.elem_count == 0 && g->mpisize == b.cfg.P && g->num_trees == b.conn.nt, "local ghost layer is not empty");
    for (int t = 0; t <= b.conn.nt; ++t) CHECK (g->tree_offsets[t] == 0 && g->mirror_tree_offsets[t] == 0, "local ghost layer has tree offsets");
    for (int t = 0; t <= b.cfg.P; ++t) CHECK (g->proc_offsets[t] == 0 && g->mirror_proc_offsets[t] == 0, "local ghost layer has process offsets");
    CHECK (p4est_ghost_is_valid (p, g), "local ghost layer is invalid");
    p4est_ghost_destroy (g);
    destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mm, "after destroying ghost layer and forest");
}
}
