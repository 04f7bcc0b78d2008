#ifndef ITER_COMMON_H
#define ITER_COMMON_H
/* All faces, edges and corners of the mesh with the leaves on their sides */
#include "entity.h"
namespace DNS {
typedef std::pair<int, Pt> Loc;
struct Side { int tree; Leaf box; int ent; std::map<int, i64> leaves; bool full = false; /* ent index code; leaves by position in the side */ };
struct Entity { std::vector<Side> sides; bool blocked = false; std::set<i64> blockers, all; };
inline int number (const Ent & e) {      /* face, edge or corner number */
  int d = e.dim (), k = 0, s = 0;
  if (d == DIM) return 0;
  if (d == 0) { for (int a = 0; a < DIM; ++a) k |= e.c[a] << a; return k; }
  if (d == DIM - 1) { for (int a = 0; a < DIM; ++a) if (e.c[a] < 2) return 2 * a + e.c[a]; }
  for (int a = 0; a < DIM; ++a) if (e.c[a] == 2) k = a;
  for (int a = 0, b = 0; a < DIM; ++a) if (a != k) s |= e.c[a] << b++;
  return 4 * k + s;
}
struct InterfaceModel {
  const Built *b; EntityModel em; int maxdim;   /* entities of dimension >= maxdim (lowest) */
  std::map<std::pair<int, Loc>, Entity> ents;
  std::map<std::pair<i64, int>, std::pair<int, Loc>> of; /* leaf, ent: the entity it takes part in */
  void init (const Built & bb, int lowest) {
    b = &bb; maxdim = lowest; em.init (bb.conn, bb.forest);
    for (i64 i = 0; i < (i64) em.leaves.size (); ++i)
      for (int x = 0; x < NENT; ++x) {
        Ent e = ent_of (x); int d = e.dim ();
        if (d == DIM || d < lowest) continue;
        const GL & g = em.leaves[i];
        bool h = em.hangs (i, e);
        Ent s = h ? EntityModel::smallest (g.l, e) : e;
        if (h && s.dim () > d) {
          Entity & E = ents[{ d, em.canon (g.tree, EntityModel::center (g.l, e)) }];
          E.blocked = true;
          for (i64 j : em.touching (g.tree, EntityModel::center (g.l, s))) if (em.leaves[j].l.level < g.l.level) E.blockers.insert (j);
          E.all.insert (i);
          continue;
        }
        Leaf box = h ? g.l.parent () : g.l;
        std::pair<int, Loc> key { d, em.canon (g.tree, EntityModel::center (box, s)) };
        of[{ i, x }] = key;
        Entity & E = ents[key];
        E.all.insert (i);
        Side *S = nullptr;
        for (auto & t : E.sides) if (t.tree == g.tree && t.box == box && t.ent == s.index ()) S = &t;
        if (!S) { E.sides.push_back (Side { g.tree, box, s.index (), {}, false }); S = &E.sides.back (); }
        int pos = 0;
        if (h) { int c = g.l.childid (), k = 0; for (int a = 0; a < DIM; ++a) if (s.c[a] == 2) pos |= ((c >> a) & 1) << k++; }
        S->full = !h;
        S->leaves[pos] = i;
      }
  }
};
/* identity of a point given at a finer scale */
inline Loc germ_of (const Conn & conn, int tree, const Pt & pt, i64 scale) {
  for (int a = 0; a < DIM; ++a) if (pt.x[a] <= 0 || pt.x[a] >= scale * RL) return conn.point_class (tree, pt, scale * RL).front ();
  return Loc { tree, pt };
}
/* the direction along axis set `along' starting at entity e of box l: a point next to its center */
inline Loc germ_at (const Conn & conn, int tree, const Leaf & l, const Ent & e, int axis) {
  Pt c = EntityModel::center (l, e);
  for (int x = 0; x < DIM; ++x) c.x[x] = 2 * c.x[x] + (x == axis ? (e.c[x] ? -1 : 1) : 0);
  return germ_of (conn, tree, c, 2);
}
/* the face with normal `axis' at entity e of box l, next to the center of e */
inline Loc face_germ (const Conn & conn, int tree, const Leaf & l, const Ent & e, int axis) {
  Pt c = EntityModel::center (l, e);
  for (int x = 0; x < DIM; ++x) c.x[x] = 2 * c.x[x] + (x == axis || e.c[x] == 2 ? 0 : e.c[x] ? -1 : 1);
  return germ_of (conn, tree, c, 2);
}
}
#endif
