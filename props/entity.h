#ifndef ENTITY_H
#define ENTITY_H
/* Faces, edges and corners of leaves, who touches them, and which of them hang */
#include "harness.h"
namespace DNS {
enum { NENT = VDIM == 3 ? 27 : 9 };
/* per axis 0: low side, 1: high side, 2: spans the leaf */
struct Ent { int c[3] = { 2, 2, 2 }; int dim () const { int n = 0; for (int a = 0; a < DIM; ++a) n += c[a] == 2; return n; }
  int index () const { int r = 0; for (int a = DIM - 1; a >= 0; --a) r = 3 * r + c[a]; return r; } };
inline Ent ent_of (int index) { Ent e; for (int a = 0; a < DIM; ++a) { e.c[a] = index % 3; index /= 3; } return e; }
inline Ent ent_face (int f) { Ent e; e.c[f / 2] = f & 1; return e; }
inline Ent ent_corner (int k) { Ent e; for (int a = 0; a < DIM; ++a) e.c[a] = (k >> a) & 1; return e; }
inline Ent ent_edge (int ed) { Ent e; int k = 0; for (int a = 0; a < DIM; ++a) if (a != ed / 4) e.c[a] = (ed % 4 >> k++) & 1; return e; }

struct EntityModel {
  const Conn *conn = nullptr; const Forest *f = nullptr;
  std::vector<GL> leaves; std::vector<i64> off;
  std::map<std::pair<int, Pt>, std::vector<i64>> memo;
  void init (const Conn & c, const Forest & ff) {
    conn = &c; f = &ff; leaves = flat (ff); off.clear ();
    i64 n = 0; for (auto & t : ff.t) { off.push_back (n); n += (i64) t.size (); }
  }
  static Pt center (const Leaf & l, const Ent & e) {
    Pt b = deinterleave (l.key); i64 h = qlen (l.level);
    for (int a = 0; a < DIM; ++a) b.x[a] += e.c[a] == 0 ? 0 : e.c[a] == 1 ? h : h / 2;
    return b;
  }
  static bool interior (const Pt & p) { for (int a = 0; a < DIM; ++a) if (p.x[a] <= 0 || p.x[a] >= RL) return false; return true; }
  std::pair<int, Pt> canon (int tree, const Pt & p) const {
    if (interior (p)) return { tree, p };
    return conn->point_class (tree, p).front ();
  }
  /* all leaves whose closure contains the point, ascending */
  const std::vector<i64> & touching (int tree, const Pt & p) {
    auto key = canon (tree, p);
    auto it = memo.find (key);
    if (it != memo.end ()) return it->second;
    std::set<i64> r;
    std::vector<std::pair<int, Pt>> cl { key };
    if (!interior (p)) cl = conn->point_class (tree, p);
    for (auto & e : cl)
      for (int k = 0; k < NCH; ++k) {
        Pt q = e.second; bool in = true;
        for (int a = 0; a < DIM; ++a) { q.x[a] -= (k >> a) & 1; in = in && q.x[a] >= 0 && q.x[a] < RL; }
        if (in) r.insert (off[e.first] + f->find (e.first, interleave (q.x)));
      }
    return memo[key] = std::vector<i64> (r.begin (), r.end ());
  }
  /* smallest entity of leaf i at its own corner within the parent that contains e; it hangs if it is
     part of the inside of a larger entity of a coarser leaf */
  static Ent smallest (const Leaf & l, const Ent & e) {
    int c = l.childid (); Ent s;
    for (int a = 0; a < DIM; ++a) { int b = (c >> a) & 1; s.c[a] = e.c[a] == b ? b : 2; }
    return s;
  }
  std::vector<signed char> hmemo;
  bool hangs (i64 i, const Ent & e) {
    const GL & g = leaves[i];
    if (g.l.level == 0) return false;
    if (hmemo.empty ()) hmemo.assign (leaves.size () * NENT, -1);
    signed char & m = hmemo[i * NENT + e.index ()];
    if (m >= 0) return m;
    Ent s = smallest (g.l, e);
    m = 0;
    if (s.dim () == 0 || s.dim () == DIM) return false;
    for (i64 j : touching (g.tree, center (g.l, s))) if (leaves[j].l.level < g.l.level) m = 1;
    return m;
  }
};
}
#endif
