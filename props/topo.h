#ifndef TOPO_H
#define TOPO_H
/* Who meets at tree edges and corners apart from those reached by crossing lower codimension */
#include "harness.h"
namespace DNS {
struct Nb { int tree, idx, flip; bool operator< (const Nb & o) const { return tree != o.tree ? tree < o.tree : idx != o.idx ? idx < o.idx : flip < o.flip; }
  bool operator== (const Nb & o) const { return tree == o.tree && idx == o.idx && flip == o.flip; } };
inline Pt corner_pt (int c) { Pt p; for (int i = 0; i < DIM; ++i) p.x[i] = (c >> i) & 1 ? RL : 0; return p; }
inline int corner_at (const Pt & p) { int c = 0; for (int i = 0; i < DIM; ++i) if (p.x[i]) c |= 1 << i; return c; }
inline int edge_corner (int e, int i) { int ax = e / 4, b = e % 4, c = i << ax, k = 0; for (int a = 0; a < 3; ++a) if (a != ax) c |= ((b >> k++) & 1) << a; return c; }
inline int edge_from_corners (int a, int b) { for (int e = 0; e < 12; ++e) { int x = edge_corner (e, 0), y = edge_corner (e, 1); if ((x == a && y == b) || (x == b && y == a)) return e; } return -1; }
inline bool face_has_corner (int f, int c) { return ((c >> (f / 2)) & 1) == (f & 1); }
/* image of a corner of t on face f in the neighbor tree */
inline int corner_across (const Conn & c, int t, int f, int k) { return corner_at (c.facepoint (t, f, corner_pt (k))); }
/* edges of other trees reached by crossing one face that touches e */
inline std::vector<Nb> edges_by_face (const Conn & c, int t, int e) {
  std::vector<Nb> r;
  for (int f = 0; f < NF; ++f) {
    if (!face_has_corner (f, edge_corner (e, 0)) || !face_has_corner (f, edge_corner (e, 1)) || c.fmap[t * NF + f].boundary) continue;
    int a = corner_across (c, t, f, edge_corner (e, 0)), b = corner_across (c, t, f, edge_corner (e, 1));
    r.push_back ({ c.fmap[t * NF + f].nt, edge_from_corners (a, b), a > b });
  }
  return r;
}
/* other members of the class of a tree edge, flip relative to e */
inline std::vector<Nb> edge_class (const Conn & c, int t, int e) {
  std::vector<Nb> r;
  if (!c.has_edge_class (t, e)) return r;
  const auto & cl = c.edges[c.tte[t * 12 + e]];
  int mine = 0;
  for (auto & m : cl) if (m.tree == t && m.idx == e) mine = m.o;
  for (auto & m : cl) if (m.tree != t || m.idx != e) r.push_back ({ m.tree, m.idx, m.o != mine });
  return r;
}
inline std::vector<Nb> true_edges (const Conn & c, int t, int e) {
  auto r = edge_class (c, t, e), f = edges_by_face (c, t, e);
  r.erase (std::remove_if (r.begin (), r.end (), [&] (const Nb & n) { return std::find (f.begin (), f.end (), n) != f.end (); }), r.end ());
  return r;
}
inline std::vector<Nb> corners_by_lower (const Conn & c, int t, int k) {
  std::vector<Nb> r;
  for (int f = 0; f < NF; ++f) if (face_has_corner (f, k) && !c.fmap[t * NF + f].boundary) r.push_back ({ c.fmap[t * NF + f].nt, corner_across (c, t, f, k), 0 });
  if (DIM == 3) for (int e = 0; e < 12; ++e) for (int i = 0; i < 2; ++i) if (edge_corner (e, i) == k)
    for (auto & n : edge_class (c, t, e)) r.push_back ({ n.tree, edge_corner (n.idx, i ^ n.flip), 0 });
  return r;
}
inline std::vector<Nb> corner_class (const Conn & c, int t, int k) {
  std::vector<Nb> r;
  if (c.has_corner_class (t, k)) for (auto & m : c.corners[c.ttc[t * NCH + k]]) if (m.tree != t || m.idx != k) r.push_back ({ m.tree, m.idx, 0 });
  return r;
}
inline std::vector<Nb> true_corners (const Conn & c, int t, int k) {
  auto r = corner_class (c, t, k), f = corners_by_lower (c, t, k);
  r.erase (std::remove_if (r.begin (), r.end (), [&] (const Nb & n) { return std::find (f.begin (), f.end (), n) != f.end (); }), r.end ());
  return r;
}
/* a box of side h that lies outside tree t across exactly the coordinates it exceeds */
inline int outside_mask (const Pt & p, int *lo = nullptr) { int m = 0; for (int i = 0; i < DIM; ++i) if (p.x[i] < 0 || p.x[i] >= RL) m |= 1 << i; (void) lo; return m; }
/* images of an outside box across exactly the tree face, edge or corner it is diagonal to */
inline std::vector<std::pair<int, Pt>> strict_images (const Conn & c, int t, const Pt & p, i64 h) {
  std::vector<std::pair<int, Pt>> r;
  int m = outside_mask (p), n = __builtin_popcount (m);
  if (n == 0) { r.push_back ({ t, p }); return r; }
  if (n == 1) {
    int a = __builtin_ctz (m), f = 2 * a + (p.x[a] >= RL);
    if (!c.fmap[t * NF + f].boundary) r.push_back ({ c.fmap[t * NF + f].nt, c.facebox (t, f, p, h) });
    return r;
  }
  if (DIM == 3 && n == 2) {
    int ax = __builtin_ctz (~m), k = 0, b = 0;
    for (int a = 0; a < 3; ++a) if (a != ax) b |= (p.x[a] >= RL) << k++;
    int e = 4 * ax + b;
    for (auto & x : true_edges (c, t, e)) {
      Pt q; int nax = x.idx / 4, kk = 0;
      for (int a = 0; a < 3; ++a) if (a == nax) q.x[a] = x.flip ? RL - h - p.x[ax] : p.x[ax]; else q.x[a] = (x.idx % 4 >> kk++) & 1 ? RL - h : 0;
      r.push_back ({ x.tree, q });
    }
    return r;
  }
  int k = 0;
  for (int a = 0; a < DIM; ++a) if (p.x[a] >= RL) k |= 1 << a;
  for (auto & x : true_corners (c, t, k)) { Pt q; for (int a = 0; a < DIM; ++a) q.x[a] = (x.idx >> a) & 1 ? RL - h : 0; r.push_back ({ x.tree, q }); }
  return r;
}
inline p4est_quadrant_t raw_quad (const Pt & p, int level) {
  p4est_quadrant_t q; memset (&q, -1, sizeof q); P4EST_QUADRANT_INIT (&q);
  q.x = (p4est_qcoord_t) p.x[0]; q.y = (p4est_qcoord_t) p.x[1];
  D3 (q.z = (p4est_qcoord_t) p.x[2];)
  q.level = (int8_t) level;
  return q;
}
inline Pt raw_pt (const p4est_quadrant_t * q) { Pt p; p.x[0] = q->x; p.x[1] = q->y; D3 (p.x[2] = q->z;) return p; }
inline std::string str (const Pt & p) { char b[90]; snprintf (b, sizeof b, "(%llx,%llx,%llx)", (long long) p.x[0], (long long) p.x[1], (long long) p.x[2]); return b; }
}
#endif
