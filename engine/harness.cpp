#include "harness.h"
#include "../props/conn_common.h"
#include <cmath>
#include <dirent.h>
#include <sc_containers.h>
#if VDIM == 3
#include <p8est_communication.h>
#endif
extern "C" void engine_log (const char *s);

namespace DNS {
using namespace eng;

/* ------------------------------------------------------------ positions */
static u64 spread (u64 v) {
#if VDIM == 2
  v &= 0xffffffffull;
  v = (v | v << 16) & 0x0000ffff0000ffffull; v = (v | v << 8) & 0x00ff00ff00ff00ffull;
  v = (v | v << 4) & 0x0f0f0f0f0f0f0f0full; v = (v | v << 2) & 0x3333333333333333ull;
  v = (v | v << 1) & 0x5555555555555555ull;
#else
  v &= 0xffffull;                /* 16 bits become 46 */
  v = (v | v << 16) & 0x0000ff0000ffull; v = (v | v << 8) & 0x00f00f00f00full;
  v = (v | v << 4) & 0x0c30c30c30c3ull; v = (v | v << 2) & 0x249249249249ull;
#endif
  return v;
}
Key interleave (const i64 * x) {
  Key k = 0;
#if VDIM == 2
  for (int i = 0; i < DIM; ++i) k |= spread ((u64) x[i]) << i;
#else
  for (int i = 0; i < DIM; ++i) { k |= (Key) spread ((u64) x[i]) << i; k |= (Key) spread ((u64) x[i] >> 16) << (48 + i); }
#endif
  return k;
}
Pt deinterleave (Key key) {
  Pt p;
  for (int b = 0; b < ML; ++b)
    for (int i = 0; i < DIM; ++i) p.x[i] |= (i64) ((key >> (DIM * b + i)) & 1) << b;
  return p;
}
p4est_quadrant_t quad_of (const Leaf & l) {
  p4est_quadrant_t q;
  memset (&q, -1, sizeof q);
  P4EST_QUADRANT_INIT (&q);
  Pt p = deinterleave (l.key);
  q.x = (p4est_qcoord_t) p.x[0]; q.y = (p4est_qcoord_t) p.x[1];
  D3 (q.z = (p4est_qcoord_t) p.x[2];)
  q.level = (int8_t) l.level;
  return q;
}
std::string str (const Leaf & l) {
  Pt p = deinterleave (l.key);
  char b[128];
#if VDIM == 3
  snprintf (b, sizeof b, "L%d(%llx,%llx,%llx)", l.level, (long long) p.x[0], (long long) p.x[1], (long long) p.x[2]);
#else
  snprintf (b, sizeof b, "L%d(%llx,%llx)", l.level, (long long) p.x[0], (long long) p.x[1]);
#endif
  return b;
}
std::string str (int tree, const Leaf & l) { return "t" + std::to_string (tree) + ":" + str (l); }

/* --------------------------------------------------------- connectivity */
int face_corner (int f, int i) {
  int n = 0;
  for (int c = 0; c < NCH; ++c) if (((c >> (f / 2)) & 1) == (f & 1)) { if (n == i) return c; ++n; }
  return -1;
}
/* edge e: axis e / 4, the two transversal coordinates from the two low bits */
static void edge_bits (int e, int *fix) {
  int axis = e / 4, b = e % 4, k = 0;
  for (int i = 0; i < 3; ++i) if (i == axis) fix[i] = -1; else fix[i] = (b >> k++) & 1;
}
static int edge_of (int axis, const int *fix) {
  int b = 0, k = 0;
  for (int i = 0; i < 3; ++i) if (i != axis) b |= fix[i] << k++;
  return 4 * axis + b;
}

static int det3 (const FaceMap & m) {
  if (DIM == 2) return 1;
  int inv = 0, s = 1;
  for (int i = 0; i < 3; ++i) { s *= m.sign[i]; for (int j = i + 1; j < 3; ++j) if (m.axis[i] > m.axis[j]) inv++; }
  return inv & 1 ? -s : s;
}
static FaceMap lo_hi_map (int lo, int hi, int o) {
  FaceMap m; m.boundary = false; m.nf = hi;
  for (int a = 0; a < 3; ++a) { m.axis[a] = a; m.sign[a] = 1; m.off[a] = 0; }
  int na = lo / 2, nb = hi / 2;
  /* outward distance d = s * x + t; target = s2 * d + t2 */
  int s = lo & 1 ? 1 : -1; i64 t = lo & 1 ? -RL : 0;
  int s2 = hi & 1 ? -1 : 1; i64 t2 = hi & 1 ? RL : 0;
  m.axis[na] = nb; m.sign[na] = s * s2; m.off[na] = s2 * t + t2;
  int A[2], B[2], k = 0;
  for (int a = 0; a < DIM; ++a) if (a != na) A[k++] = a;
  k = 0;
  for (int a = 0; a < DIM; ++a) if (a != nb) B[k++] = a;
  for (int sw = 0; sw < (DIM == 3 ? 2 : 1); ++sw) {
    for (int j = 0; j < DIM - 1; ++j) {
      int tj = sw ? 1 - j : j;  /* A[j] goes to B[tj] */
      int flip = (o >> tj) & 1;
      m.axis[A[j]] = B[tj]; m.sign[A[j]] = flip ? -1 : 1; m.off[A[j]] = flip ? RL : 0;
    }
    if (DIM == 2 || det3 (m) == 1) return m;
  }
  internal ("no face map");
}
FaceMap make_face_map (int f, int code) {
  int nf = code % NF, o = code / NF;
  if (f <= nf) return lo_hi_map (f, nf, o);
  FaceMap b = lo_hi_map (nf, f, o), m;
  m.boundary = false; m.nf = nf;
  for (int a = 0; a < 3; ++a) { m.axis[a] = a; m.sign[a] = 1; m.off[a] = 0; }
  for (int a = 0; a < DIM; ++a) { int c = b.axis[a]; m.axis[c] = a; m.sign[c] = b.sign[a]; m.off[c] = -b.sign[a] * b.off[a]; }
  return m;
}
int encode_face (int f, int nf, const std::function<int (int)> & cm) {
  auto idx = [] (int ff, int c) { for (int i = 0; i < HALF; ++i) if (face_corner (ff, i) == c) return i; return -1; };
  if (f <= nf) return nf + NF * idx (nf, cm (face_corner (f, 0)));
  for (int i = 0; i < HALF; ++i) if (cm (face_corner (f, i)) == face_corner (nf, 0)) return nf + NF * i;
  internal ("encode_face");
}
void Conn::from (const p4est_connectivity_t * c) {
  nv = c->num_vertices; nt = c->num_trees; nc = c->num_corners;
  vertices.assign (c->vertices, c->vertices + 3 * (size_t) nv);
  ttv.clear ();
  if (nv > 0) ttv.assign (c->tree_to_vertex, c->tree_to_vertex + (size_t) nt * NCH);
  ttt.assign (c->tree_to_tree, c->tree_to_tree + (size_t) nt * NF);
  ttf.assign (c->tree_to_face, c->tree_to_face + (size_t) nt * NF);
#if VDIM == 3
  ne = c->num_edges;
  ett_off.assign (c->ett_offset, c->ett_offset + ne + 1);
  tte.clear (); ett.clear (); ete.clear ();
  if (ne > 0) {
    tte.assign (c->tree_to_edge, c->tree_to_edge + (size_t) nt * 12);
    ett.assign (c->edge_to_tree, c->edge_to_tree + ett_off[ne]);
    ete.assign (c->edge_to_edge, c->edge_to_edge + ett_off[ne]);
  }
#endif
  ctt_off.assign (c->ctt_offset, c->ctt_offset + nc + 1);
  ttc.clear (); ctt.clear (); ctc.clear ();
  if (nc > 0) {
    ttc.assign (c->tree_to_corner, c->tree_to_corner + (size_t) nt * NCH);
    ctt.assign (c->corner_to_tree, c->corner_to_tree + ctt_off[nc]);
    ctc.assign (c->corner_to_corner, c->corner_to_corner + ctt_off[nc]);
  }
  finish ();
}
void Conn::finish () {
  fmap.assign ((size_t) nt * NF, FaceMap ());
  for (int t = 0; t < nt; ++t)
    for (int f = 0; f < NF; ++f) {
      int n = ttt[t * NF + f], code = ttf[t * NF + f];
      if (n == t && code == f) continue;
      fmap[t * NF + f] = make_face_map (f, code);
      fmap[t * NF + f].nt = n;
    }
  edges.assign (ne, {}); corners.assign (nc, {});
  for (int e = 0; e < ne; ++e) for (int k = ett_off[e]; k < ett_off[e + 1]; ++k) edges[e].push_back ({ (int) ett[k], ete[k] % 12, ete[k] / 12 });
  for (int e = 0; e < nc; ++e) for (int k = ctt_off[e]; k < ctt_off[e + 1]; ++k) corners[e].push_back ({ (int) ctt[k], ctc[k], 0 });
}
p4est_connectivity_t *Conn::make () const {
  static const p4est_topidx_t zero = 0;
  (void) zero;
  return p4est_connectivity_new_copy (nv, nt,
#if VDIM == 3
                                      ne,
#endif
                                      nc, nv ? vertices.data () : nullptr, nv ? ttv.data () : nullptr, ttt.data (), ttf.data (),
#if VDIM == 3
                                      ne ? tte.data () : nullptr, ett_off.data (), ne ? ett.data () : nullptr, ne ? ete.data () : nullptr,
#endif
                                      nc ? ttc.data () : nullptr, ctt_off.data (), nc ? ctt.data () : nullptr, nc ? ctc.data () : nullptr);
}
bool Conn::same_as (const p4est_connectivity_t * c) const {
  Conn o; o.from (c);
  return nv == o.nv && nt == o.nt && ne == o.ne && nc == o.nc && vertices == o.vertices && ttv == o.ttv && ttt == o.ttt && ttf == o.ttf
    && tte == o.tte && ett_off == o.ett_off && ett == o.ett && ete == o.ete && ttc == o.ttc && ctt_off == o.ctt_off && ctt == o.ctt && ctc == o.ctc;
}
Pt Conn::facepoint (int tree, int face, const Pt & p) const {
  const FaceMap & m = fmap[tree * NF + face];
  Pt r;
  for (int a = 0; a < DIM; ++a) r.x[m.axis[a]] = m.sign[a] * p.x[a] + m.off[a];
  return r;
}
Pt Conn::facebox (int tree, int face, const Pt & p, i64 h) const {
  const FaceMap & m = fmap[tree * NF + face];
  Pt r = facepoint (tree, face, p);
  for (int a = 0; a < DIM; ++a) if (m.sign[a] < 0) r.x[m.axis[a]] -= h;
  return r;
}
void Conn::images (int tree, const Pt & p, i64 h, const int *d, std::vector<Image> & out) const {
  out.clear ();
  Pt n = p; int o[3], no = 0, cd = dir_codim (d);
  for (int i = 0; i < DIM; ++i) { n.x[i] += h * d[i]; o[i] = n.x[i] < 0 || n.x[i] >= RL; no += o[i]; }
  if (no == 0) { out.push_back ({ tree, n, cd }); return; }
  if (no == 1) {
    int f = 0;
    for (int i = 0; i < DIM; ++i) if (o[i]) f = 2 * i + (n.x[i] >= RL);
    if (fmap[tree * NF + f].boundary) return;
    out.push_back ({ fmap[tree * NF + f].nt, facebox (tree, f, n, h), cd });
    return;
  }
  if (DIM == 3 && no == 2) {
    int axis = 0, fix[3] = { 0, 0, 0 };
    for (int i = 0; i < 3; ++i) if (!o[i]) axis = i; else fix[i] = n.x[i] >= RL;
    int e = edge_of (axis, fix);
    if (!has_edge_class (tree, e)) return;
    const auto & cl = edges[tte[tree * 12 + e]];
    int mine = 0;
    for (auto & c : cl) if (c.tree == tree && c.idx == e) mine = c.o;
    for (auto & c : cl) {
      if (c.tree == tree && c.idx == e) continue;
      int nfix[3]; edge_bits (c.idx, nfix);
      Pt q; i64 s = n.x[axis];
      for (int i = 0; i < 3; ++i) if (nfix[i] < 0) q.x[i] = c.o != mine ? RL - h - s : s; else q.x[i] = nfix[i] ? RL - h : 0;
      out.push_back ({ c.tree, q, cd });
    }
    return;
  }
  int c0 = 0;
  for (int i = 0; i < DIM; ++i) if (n.x[i] >= RL) c0 |= 1 << i;
  if (!has_corner_class (tree, c0)) return;
  for (auto & c : corners[ttc[tree * NCH + c0]]) {
    if (c.tree == tree && c.idx == c0) continue;
    Pt q;
    for (int i = 0; i < DIM; ++i) q.x[i] = (c.idx >> i) & 1 ? RL - h : 0;
    out.push_back ({ c.tree, q, cd });
  }
}
std::vector<std::pair<int, Pt>> Conn::point_class (int tree, const Pt & p, i64 R) const {
  std::vector<std::pair<int, Pt>> todo { { tree, p } };
  std::set<std::pair<int, Pt>> seen { { tree, p } };
  while (!todo.empty ()) {
    auto cur = todo.back (); todo.pop_back ();
    auto add = [&] (int t, const Pt & q) { if (seen.insert ({ t, q }).second) todo.push_back ({ t, q }); };
    int t = cur.first; const Pt & q = cur.second;
    int on[3], non = 0;
    for (int i = 0; i < DIM; ++i) { on[i] = q.x[i] == 0 ? 0 : q.x[i] == R ? 1 : -1; non += on[i] >= 0; }
    for (int i = 0; i < DIM; ++i) if (on[i] >= 0) {
      int f = 2 * i + on[i];
      if (!fmap[t * NF + f].boundary) { const FaceMap & fm = fmap[t * NF + f]; Pt r; for (int a = 0; a < DIM; ++a) r.x[fm.axis[a]] = fm.sign[a] * q.x[a] + fm.off[a] / RL * R; add (fm.nt, r); };
    }
    if (DIM == 3 && non >= 2)
      for (int ax = 0; ax < 3; ++ax) {
        int fix[3]; bool ok = true;
        for (int i = 0; i < 3; ++i) if (i != ax) { fix[i] = on[i]; ok = ok && on[i] >= 0; }
        if (!ok) continue;
        int e = edge_of (ax, fix);
        if (!has_edge_class (t, e)) continue;
        const auto & cl = edges[tte[t * 12 + e]];
        int mine = 0;
        for (auto & c : cl) if (c.tree == t && c.idx == e) mine = c.o;
        for (auto & c : cl) {
          if (c.tree == t && c.idx == e) continue;
          int nfix[3]; edge_bits (c.idx, nfix);
          Pt r;
          for (int i = 0; i < 3; ++i) if (nfix[i] < 0) r.x[i] = c.o != mine ? R - q.x[ax] : q.x[ax]; else r.x[i] = nfix[i] ? R : 0;
          add (c.tree, r);
        }
      }
    if (non == DIM) {
      int c0 = 0;
      for (int i = 0; i < DIM; ++i) c0 |= on[i] << i;
      if (has_corner_class (t, c0))
        for (auto & c : corners[ttc[t * NCH + c0]]) {
          Pt r;
          for (int i = 0; i < DIM; ++i) r.x[i] = (c.idx >> i) & 1 ? R : 0;
          add (c.tree, r);
        }
    }
  }
  return std::vector<std::pair<int, Pt>> (seen.begin (), seen.end ());
}

struct Rot { int axis[3], sign[3]; int corner (int c) const { int r = 0; for (int i = 0; i < DIM; ++i) { int b = (c >> i) & 1; if (sign[i] < 0) b ^= 1; r |= b << axis[i]; } return r; }
  int face (int f) const { return 2 * axis[f / 2] + ((f & 1) ^ (sign[f / 2] < 0)); } };
static const std::vector<Rot> & rotations () {
  static std::vector<Rot> v;
  if (v.empty ()) {
    int perm[3] = { 0, 1, 2 };
    do {
      for (int s = 0; s < (1 << DIM); ++s) {
        Rot r; FaceMap m;
        for (int i = 0; i < 3; ++i) { m.axis[i] = r.axis[i] = perm[i]; m.sign[i] = r.sign[i] = (s >> i) & 1 ? -1 : 1; }
        if (DIM == 3 && det3 (m) != 1) continue;
        v.push_back (r);
      }
    } while (std::next_permutation (perm, perm + DIM));
  }
  return v;
}
int n_rotations () { return (int) rotations ().size (); }
Conn rotate_trees (const Conn & c, const std::vector<int> & rot) {
  Conn n = c;
  auto R = [&] (int t) -> const Rot & { return rotations ()[rot[t]]; };
  auto edge_image = [&] (int t, int e, int *flip) {
    int fix[3]; edge_bits (e, fix);
    int c0 = 0, ax = e / 4;
    for (int i = 0; i < 3; ++i) if (fix[i] > 0) c0 |= 1 << i;
    int a = R (t).corner (c0), b = R (t).corner (c0 | (1 << ax));
    int nax = R (t).axis[ax], nfix[3];
    for (int i = 0; i < 3; ++i) nfix[i] = (a >> i) & 1;
    *flip = a > b;
    return edge_of (nax, nfix);
  };
  for (int t = 0; t < c.nt; ++t) {
    if (c.nv) for (int k = 0; k < NCH; ++k) n.ttv[t * NCH + R (t).corner (k)] = c.ttv[t * NCH + k];
    for (int f = 0; f < NF; ++f) {
      int g = R (t).face (f), m = c.ttt[t * NF + f];
      const FaceMap & fm = c.fmap[t * NF + f];
      n.ttt[t * NF + g] = m;
      if (fm.boundary) { n.ttf[t * NF + g] = (int8_t) g; continue; }
      auto cm = [&] (int nc) {  /* new corner of t -> new corner of m */
        int oc = 0;
        for (int k = 0; k < NCH; ++k) if (R (t).corner (k) == nc) oc = k;
        Pt p;
        for (int i = 0; i < DIM; ++i) p.x[i] = (oc >> i) & 1 ? RL : 0;
        Pt q = c.facepoint (t, f, p);
        int mc = 0;
        for (int i = 0; i < DIM; ++i) if (q.x[i]) mc |= 1 << i;
        return R (m).corner (mc);
      };
      n.ttf[t * NF + g] = (int8_t) encode_face (g, R (m).face (fm.nf), cm);
    }
    if (c.ne) for (int e = 0; e < 12; ++e) { int fl; n.tte[t * 12 + edge_image (t, e, &fl)] = c.tte[t * 12 + e]; }
    if (c.nc) for (int k = 0; k < NCH; ++k) n.ttc[t * NCH + R (t).corner (k)] = c.ttc[t * NCH + k];
  }
  for (int k = 0; k < (int) c.ett.size (); ++k) { int fl; int e = edge_image (c.ett[k], c.ete[k] % 12, &fl); n.ete[k] = (int8_t) (e + 12 * ((c.ete[k] / 12) ^ fl)); }
  for (int k = 0; k < (int) c.ctt.size (); ++k) n.ctc[k] = (int8_t) R (c.ctt[k]).corner (c.ctc[k]);
  n.finish ();
  n.name += "+rot";
  return n;
}

static p4est_connectivity_t *polyomino (std::string & name) {
  int m = range (1, 3), n = range (1, 3), k = DIM == 3 ? range (1, 3) : 1;
  if (m * n * k > 12) k = 1;
  std::vector<int> cells;
  for (int i = 0; i < m * n * k; ++i) if (draw (100) < 65) cells.push_back (i);
  if (cells.empty ()) cells.push_back (0);
  std::map<int, int> vid; std::vector<double> v; std::vector<p4est_topidx_t> ttv;
  for (int c : cells) {
    int x = c % m, y = (c / m) % n, z = c / (m * n);
    for (int q = 0; q < NCH; ++q) {
      int vx = x + (q & 1), vy = y + ((q >> 1) & 1), vz = z + ((q >> 2) & 1);
      int id = vx + 8 * (vy + 8 * vz);
      if (!vid.count (id)) { int nid = (int) vid.size (); vid[id] = nid; v.push_back (vx); v.push_back (vy); v.push_back (vz); }
      ttv.push_back (vid[id]);
    }
  }
  int nt = (int) cells.size ();
  p4est_connectivity_t *c = p4est_connectivity_new ((p4est_topidx_t) vid.size (), nt,
#if VDIM == 3
                                                    0, 0,
#endif
                                                    0, 0);
  memcpy (c->vertices, v.data (), v.size () * sizeof (double));
  memcpy (c->tree_to_vertex, ttv.data (), ttv.size () * sizeof (p4est_topidx_t));
  for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) { c->tree_to_tree[t * NF + f] = t; c->tree_to_face[t * NF + f] = (int8_t) f; }
  p4est_connectivity_complete (c);
  name = "cells" + std::to_string (nt);
  return c;
}

/* a few trees with faces glued at random, in any orientation: topologies that no drawn mesh has.
   Left out are folds (a gluing that takes a corner to itself) and edges identified with themselves in reverse. */
static Conn glued (bool vertices) {
  Conn C;
  C.nt = range (1, 4);
  C.name = "glued" + std::to_string (C.nt);
  for (int t = 0; t < C.nt; ++t) for (int f = 0; f < NF; ++f) { C.ttt.push_back (t); C.ttf.push_back ((int8_t) f); }
  if (DIM == 3) C.ett_off.push_back (0);
  C.ctt_off.push_back (0);
  C.finish ();
  int n = range (1, C.nt * NF / 2 + 1);
  for (int i = 0; i < n; ++i) {
    std::vector<int> bnd;
    for (int j = 0; j < C.nt * NF; ++j) if (C.fmap[j].boundary) bnd.push_back (j);
    if (bnd.size () < 2) break;
    int a = (int) draw (bnd.size ()), b = (int) draw (bnd.size () - 1), o = (int) draw (HALF);
    if (b >= a) ++b;
    a = bnd[a]; b = bnd[b];
    Conn w = C;
    w.ttt[a] = b / NF; w.ttf[a] = (int8_t) (b % NF + NF * o); w.ttt[b] = a / NF; w.ttf[b] = (int8_t) (a % NF + NF * o);
    w.finish ();
    Closure cl (C.nt); cl.add (w);
    bool fold = cl.e.conflict;
    if (a / NF == b / NF) for (int k = 0; k < HALF; ++k) fold |= corner_across (w, a / NF, a % NF, face_corner (a % NF, k)) == face_corner (a % NF, k);
    if (!fold) { C = w; C.name += " " + std::to_string (a / NF) + "/" + std::to_string (a % NF) + "-" + std::to_string (b / NF) + "/" + std::to_string (b % NF) + ":" + std::to_string (o); }
  }
  bool all = chance (35);       /* list also what is reached by crossing faces, as p4est_connectivity_join_faces does */
  if (all) C.name += " all listed";
  Closure cl (C.nt); cl.add (C);
  if (DIM == 3) {
    C.tte.assign (C.nt * 12, -1);
    for (int t = 0; t < C.nt; ++t) for (int e = 0; e < 12; ++e) {
      if (C.tte[t * 12 + e] >= 0) continue;
      auto v = cl.edge (t, e); v.insert (v.begin (), Nb { t, e, 0 });
      bool need = all && v.size () > 1;
      for (auto & m : v) {
        std::vector<Nb> r { { m.tree, m.idx, m.flip } };
        for (auto & x : edges_by_face (C, m.tree, m.idx)) r.push_back ({ x.tree, x.idx, x.flip ^ m.flip });
        for (auto & x : v) need |= std::find (r.begin (), r.end (), x) == r.end ();
      }
      if (!need) continue;
      for (auto & m : v) { C.tte[m.tree * 12 + m.idx] = C.ne; C.ett.push_back (m.tree); C.ete.push_back ((int8_t) (m.idx + 12 * m.flip)); }
      C.ett_off.push_back ((p4est_topidx_t) C.ett.size ()); ++C.ne;
    }
    if (!C.ne) C.tte.clear ();
    C.finish ();
  }
  std::vector<p4est_topidx_t> ttc (C.nt * NCH, -1), off { 0 }, ctt; std::vector<int8_t> ctc; int nc = 0;
  for (int t = 0; t < C.nt; ++t) for (int k = 0; k < NCH; ++k) {
    if (ttc[t * NCH + k] >= 0) continue;
    auto v = cl.corner (t, k); v.insert (v.begin (), Nb { t, k, 0 });
    bool need = all && v.size () > 1;
    for (auto & m : v) {
      auto r = corners_by_lower (C, m.tree, m.idx); r.push_back ({ m.tree, m.idx, 0 });
      for (auto & x : v) need |= std::find (r.begin (), r.end (), x) == r.end ();
    }
    if (!need) continue;
    for (auto & m : v) { ttc[m.tree * NCH + m.idx] = nc; ctt.push_back (m.tree); ctc.push_back ((int8_t) m.idx); }
    off.push_back ((p4est_topidx_t) ctt.size ()); ++nc;
  }
  if (vertices) {               /* every tree lies apart, like the ends of a periodic mesh */
    C.nv = C.nt * NCH;
    for (int i = 0; i < C.nv; ++i) {
      C.ttv.push_back (i);
      for (int a = 0; a < 3; ++a) C.vertices.push_back (((i >> a) & 1 && a < DIM) + (a == 0 ? 2. * (i / NCH) : 0.));
    }
  }
  C.nc = nc; if (nc) C.ttc = ttc; C.ctt_off = off; C.ctt = ctt; C.ctc = ctc;
  C.finish ();
  p4est_connectivity_t *c = C.make ();
  CHECK (p4est_connectivity_is_valid (c), "a mesh of glued trees is not valid");
  p4est_connectivity_destroy (c);
  label ("trees glued at random");
  return C;
}

/* trees around a common vertex (2D) or a stack of them around a common axis (3D), closed or open */
static p4est_connectivity_t *fan (std::string & name, int least = 3, int most = 8) {
  int n = range (least, most), open = chance (30), lay = DIM == 3 ? range (1, 2) : 1, np = 2 * n + 1 + open;
  std::vector<double> v; std::vector<p4est_topidx_t> ttv;
  for (int z = 0; z < (DIM == 3 ? lay + 1 : 1); ++z) for (int i = 0; i < np; ++i) {
    double r = i == 0 ? 0 : 1, w = i == 0 ? 0 : 2 * M_PI * (i - 1) / (2. * (n + open)); /* odd: spokes, even: outer corners */
    v.push_back (r * cos (w)); v.push_back (r * sin (w)); v.push_back (z);
  }
  for (int z = 0; z < lay; ++z) for (int i = 0; i < n; ++i) {
    int a = 1 + 2 * i, o = a + 1, c = open ? a + 2 : 1 + 2 * ((i + 1) % n);
    for (int up = 0; up < (DIM == 3 ? 2 : 1); ++up) for (int q : { 0, a, c, o }) ttv.push_back (q + np * (z + up));
  }
  int nt = n * lay;
  p4est_connectivity_t *c = p4est_connectivity_new ((p4est_topidx_t) (v.size () / 3), nt,
#if VDIM == 3
                                                    0, 0,
#endif
                                                    0, 0);
  memcpy (c->vertices, v.data (), v.size () * sizeof (double));
  memcpy (c->tree_to_vertex, ttv.data (), ttv.size () * sizeof (p4est_topidx_t));
  for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) { c->tree_to_tree[t * NF + f] = t; c->tree_to_face[t * NF + f] = (int8_t) f; }
  p4est_connectivity_complete (c);
  name = std::string (open ? "openfan" : "fan") + std::to_string (n) + (DIM == 3 ? "x" + std::to_string (lay) : "");
  return c;
}

/* many trees around one vertex or edge */
static Conn wide_fan (int most) {
  std::string name; p4est_connectivity_t *c = fan (name, DIM == 3 ? most / 4 : most / 2, DIM == 3 ? most / 2 : most);
  Conn C; C.name = name; C.from (c);
  p4est_connectivity_destroy (c);
  if (chance (40)) { std::vector<int> rot (C.nt); for (auto & r : rot) r = (int) draw (n_rotations ()); C = rotate_trees (C, rot); }
  return C;
}
Conn draw_conn (int maxtrees, bool need_vertices) {
  if (maxtrees >= 4 && chance (getenv ("VERIF_GLUE") ? atoi (getenv ("VERIF_GLUE")) : 15)) return glued (need_vertices || chance (30));
  p4est_connectivity_t *c = nullptr;
  std::string name;
  /* rarely a large one: tree numbers beyond 255 */
  bool large = maxtrees >= 64 && (int) draw (1000) >= 1000 - (getenv ("VERIF_LARGE") ? atoi (getenv ("VERIF_LARGE")) : asan () ? 0 : 3);
  for (int attempt = 0; !large; ++attempt) {
    int kind = weighted ({ 10, 35, 30, 10, 12, 8 });
    if (kind == 0) { c = p4est_connectivity_new_byname ("unit"); name = "unit"; }
    else if (kind == 1) {
#if VDIM == 2
      static const char *n[] = { "corner", "periodic", "rotwrap", "pillow", "moebius", "star", "cubed", "disk", "disk_nonp", "disk_a",
        "shell2d", "disk2d", "bowtie", "icosahedron", "circle", "drop" };
      int k = (int) draw (16);
      name = n[k];
      if (k == 8) c = p4est_connectivity_new_disk_nonperiodic ();
      else if (k == 9) { int pa = (int) draw (2), pb = (int) draw (2); c = p4est_connectivity_new_disk (pa, pb); name += std::to_string (pa) + std::to_string (pb); }
      else if (k == 14) c = p4est_connectivity_new_circle ();
      else if (k == 15) c = p4est_connectivity_new_drop ();
      else c = p4est_connectivity_new_byname (n[k]);
#else
      static const char *n[] = { "periodic", "rotcubes", "rotwrap", "twocubes", "twowrap", "pillow", "torus", "drop", "sphere", "shell" };
      int k = (int) draw (10);
      name = n[k];
      if (k == 6) { int s = range (1, 5); c = p8est_connectivity_new_torus (s); name += std::to_string (s); }
      else if (k == 7) c = p8est_connectivity_new_drop ();
      else c = p8est_connectivity_new_byname (n[k]);
#endif
    }
    else if (kind == 2) {
      int m = range (1, 3), n = range (1, 3), k = DIM == 3 ? range (1, 3) : 1;
      int pa = chance (30), pb = chance (30), pc = DIM == 3 ? chance (30) : 0;
      c = p4est_connectivity_new_brick (m, n,
#if VDIM == 3
                                        k,
#endif
                                        pa, pb
#if VDIM == 3
                                        , pc
#endif
        );
      name = "brick" + std::to_string (m) + std::to_string (n) + (DIM == 3 ? std::to_string (k) : "") + (pa ? "p" : "-") + (pb ? "p" : "-") + (DIM == 3 ? (pc ? "p" : "-") : "");
    }
    else if (kind == 3) {
      int l = (int) draw (NF), r = (int) draw (NF), o = (int) draw (HALF);
      c = p4est_connectivity_new_twotrees (l, r, o);
      name = "twotrees" + std::to_string (l) + std::to_string (r) + std::to_string (o);
    }
    else if (kind == 4) c = polyomino (name);
    else c = fan (name);
    bool ok = c->num_trees <= maxtrees && (!need_vertices || c->num_vertices > 0);
    if (ok) break;
    p4est_connectivity_destroy (c);
    if (attempt > 20) { c = p4est_connectivity_new_byname ("unit"); name = "unit"; break; }
  }
  if (large) {
    int m = range (DIM == 3 ? 5 : 14, DIM == 3 ? 8 : 22), n = range (DIM == 3 ? 5 : 14, DIM == 3 ? 8 : 22), per = (int) draw (1 << DIM);
    c = p4est_connectivity_new_brick (m, n,
#if VDIM == 3
                                      range (5, 8),
#endif
                                      per & 1, per >> 1 & 1
#if VDIM == 3
                                      , per >> 2
#endif
      );
    name = "brick of " + std::to_string (c->num_trees);
    label ("more than 100 trees");
  }
  Conn C;
  C.name = name;
  C.from (c);
  for (const char *r : { "brick", "twotrees", "unit", "periodic" }) C.regular |= name.find (r) == 0;
  p4est_connectivity_destroy (c);
  if (chance (40)) {
    std::vector<int> rot (C.nt);
    for (auto & r : rot) r = (int) draw (n_rotations ());
    C = rotate_trees (C, rot);
  }
  if (C.nv && !need_vertices && chance (10)) { C.nv = 0; C.vertices.clear (); C.ttv.clear (); C.name += "+novert"; }
  return C;
}

/* --------------------------------------------------------------- forest */
const int *direction (int k) {
  static int d[27][3]; static bool init = false;
  if (!init) { init = true; for (int i = 0; i < 27; ++i) { d[i][0] = i % 3 - 1; d[i][1] = (i / 3) % 3 - 1; d[i][2] = (i / 9) % 3 - 1; } }
  return d[DIM == 2 ? k + 9 : k];
}
std::vector<GL> flat (const Forest & f) {
  std::vector<GL> v;
  for (int t = 0; t < (int) f.t.size (); ++t) for (auto & l : f.t[t]) v.push_back ({ t, l });
  return v;
}
i64 tree_offset (const Forest & f, int t) { i64 n = 0; for (int i = 0; i < t; ++i) n += (i64) f.t[i].size (); return n; }
bool Dec::operator() (int tree, const Leaf & q) const {
  if (q.level >= lmax) return false;
  switch (kind) {
  case 0: return mix (seed, mix (tree, kh (q.key), q.level)) % 100 < (u64) density;
  case 1: for (auto & f : focus) if (f.first == tree && f.second >= q.key && f.second < q.end ()) return true; return false;
  case 2: return true;
  case 3: return q.level == 0 || ((mask >> q.childid ()) & 1);
  case 4: return mix (seed, tree) % 100 < (u64) density;
  case 5: { Pt p = deinterleave (q.key); int on = 0; for (int i = 0; i < DIM; ++i) on += p.x[i] == 0 || p.x[i] + qlen (q.level) == RL; return on >= (int) mask; }
  case 6: { bool hit = false; for (auto & f : focus) hit |= f.first == tree && f.second >= q.key && f.second < q.end ();
            return hit || (q.level < 4 && mix (seed, mix (tree, kh (q.key), q.level)) % 100 < (u64) density); }
  }
  return false;
}
std::string Dec::text () const {
  static const char *n[] = { "hash", "focus", "all", "childmask", "trees", "boundary", "focus+hash" };
  char b[100]; snprintf (b, sizeof b, "%s(d%d,l%d,m%x)", n[kind], density, lmax, mask);
  return b;
}
Dec draw_refine_dec (const Conn & c, int maxdeep) {
  Dec d;
  d.kind = weighted ({ 30, 22, 6, 12, 6, 8, 16 });
  d.seed = draw (1 << 20);
  static const int dens[] = { 50, 10, 25, 75, 90 };
  d.density = dens[draw (5)];
  d.lmax = range (1, DIM == 2 ? 6 : 4);
  d.mask = d.kind == 5 ? (unsigned) range (1, DIM) : (unsigned) draw (1 << NCH);
  if (d.kind == 1 || d.kind == 6) {
    d.lmax = chance (15) ? maxdeep - range (0, 1) : range (1, std::min (maxdeep, 12));
    int n = range (1, 3);
    for (int i = 0; i < n; ++i) {
      int t = (int) draw (c.nt); i64 x[3] = { 0, 0, 0 };
      for (int k = 0; k < DIM; ++k) switch (weighted ({ 30, 30, 15, 10, 15 })) {
        case 0: x[k] = 0; break;
        case 1: x[k] = RL - 1; break;
        case 2: x[k] = RL / 2; break;
        case 3: x[k] = RL / 2 - 1; break;
        default: x[k] = (i64) draw (RL);
        }
      d.focus.push_back ({ t, interleave (x) });
    }
  }
  if (d.lmax > maxdeep) d.lmax = maxdeep;
  return d;
}
bool CDec::operator() (int tree, const Leaf & p) const { return p.level >= lmin && mix (seed, mix (tree, kh (p.key), p.level)) % 100 < (u64) density; }
CDec draw_coarsen_dec () { CDec d; static const int dens[] = { 100, 50, 80, 20 }; d.density = dens[draw (4)]; d.seed = draw (1 << 20); d.lmin = range (0, 3); return d; }

Forest uniform (const Conn * c, int level, const TagFn & tag) {
  Forest f; f.conn = c; f.t.resize (c->nt);
  for (int t = 0; t < c->nt; ++t) {
    Key n = (Key) 1 << (DIM * level);
    for (Key i = 0; i < n; ++i) { Leaf l { i * qvol (level), level, 0 }; l.tag = tag (t, l); f.t[t].push_back (l); }
  }
  return f;
}
void set_tags (Forest & f, const TagFn & tag) { for (int t = 0; t < (int) f.t.size (); ++t) for (auto & l : f.t[t]) l.tag = tag (t, l); }
static void refine_leaf (Tree & out, int t, Leaf l, const Dec & d, bool rec, int maxlevel, const TagFn & tag, bool top, i64 & budget) {
  if (budget < 0) return;
  if ((top || rec) && l.level < maxlevel && d (t, l)) {
    for (int c = 0; c < NCH; ++c) { Leaf k = l.child (c); k.tag = tag (t, k); refine_leaf (out, t, k, d, rec, maxlevel, tag, false, budget); }
  }
  else { out.push_back (l); budget--; }
}
bool refine (Forest & f, const Dec & d, bool rec, int maxlevel, i64 cap, const TagFn & tag) {
  Forest n; n.conn = f.conn; n.t.resize (f.t.size ());
  for (int t = 0; t < (int) f.t.size (); ++t)
    for (auto & l : f.t[t]) { refine_leaf (n.t[t], t, l, d, rec, maxlevel, tag, true, cap); if (cap < 0) return false; }
  f = n;
  return true;
}
bool refine_capped (Forest & f, Dec & d, bool rec, int maxlevel, i64 cap, const TagFn & tag) {
  int step = d.lmax > 8 ? 3 : 1;
  while (!refine (f, d, rec, maxlevel, cap, tag)) {
    if (d.lmax <= 0) return false;
    d.lmax = std::max (0, d.lmax - step);
  }
  return true;
}
void balance (Forest & f, int codim, const TagFn & tag, i64 cap, bool *over) {
  *over = false;
  std::vector<std::map<Key, int>> m (f.t.size ());
  std::vector<std::map<Key, u64>> tags (f.t.size ());
  std::vector<std::pair<int, Leaf>> work;
  i64 n = 0;
  for (int t = 0; t < (int) f.t.size (); ++t) for (auto & l : f.t[t]) { m[t][l.key] = l.level; tags[t][l.key] = l.tag; if (l.level >= 2) work.push_back ({ t, l }); n++; }
  std::vector<std::set<Key>> fresh (f.t.size ());
  std::vector<Conn::Image> im;
  std::sort (work.begin (), work.end (), [] (const std::pair<int, Leaf> & a, const std::pair<int, Leaf> & b) { return a.second.level < b.second.level; });
  while (!work.empty ()) {
    auto w = work.back (); work.pop_back ();
    int t = w.first; Leaf l = w.second;
    { auto it = m[t].find (l.key); if (it == m[t].end () || it->second != l.level) continue; }
    Pt p = deinterleave (l.key);
    for (int k = 0; k < NDIR; ++k) {
      const int *d = direction (k);
      int cd = dir_codim (d);
      if (cd == 0 || cd > codim) continue;
      f.conn->images (t, p, qlen (l.level), d, im);
      for (auto & i : im) {
        Key key = interleave (i.p.x);
        for (;;) {
          auto it = std::prev (m[i.tree].upper_bound (key));
          Leaf c { it->first, it->second, 0 };
          if (c.level >= l.level - 1) break;
          m[i.tree].erase (it);
          for (int ch = 0; ch < NCH; ++ch) {
            Leaf q = c.child (ch);
            m[i.tree][q.key] = q.level; fresh[i.tree].insert (q.key);
            if (q.level >= 2) work.push_back ({ i.tree, q });
          }
          n += NCH - 1;
          if (n > cap) { *over = true; return; }
        }
      }
    }
  }
  for (int t = 0; t < (int) f.t.size (); ++t) {
    f.t[t].clear ();
    for (auto & e : m[t]) { Leaf l { e.first, e.second, 0 }; l.tag = fresh[t].count (e.first) ? tag (t, l) : tags[t][e.first]; f.t[t].push_back (l); }
  }
}
Adj adjacency (const Forest & f, int maxcodim) {
  std::vector<i64> off (f.t.size () + 1, 0);
  for (size_t t = 0; t < f.t.size (); ++t) off[t + 1] = off[t] + (i64) f.t[t].size ();
  Adj a ((size_t) off.back ());
  std::vector<Conn::Image> im;
  auto put = [&] (int i, int j, int cd) { auto r = a[i].insert ({ j, cd }); if (!r.second && r.first->second > cd) r.first->second = cd; };
  for (int t = 0; t < (int) f.t.size (); ++t)
    for (int k = 0; k < (int) f.t[t].size (); ++k) {
      const Leaf & l = f.t[t][k];
      Pt p = deinterleave (l.key);
      for (int dk = 0; dk < NDIR; ++dk) {
        const int *d = direction (dk);
        int cd = dir_codim (d);
        if (cd == 0 || cd > maxcodim) continue;
        f.conn->images (t, p, qlen (l.level), d, im);
        for (auto & i : im) {
          int j = f.find (i.tree, interleave (i.p.x));
          if (f.t[i.tree][j].level > l.level) continue;
          int gi = (int) (off[t] + k), gj = (int) (off[i.tree] + j);
          if (gi == gj) continue;
          put (gi, gj, cd); put (gj, gi, cd);
        }
      }
    }
  return a;
}
bool is_balanced (const Forest & f, int codim) {
  auto fl = flat (f);
  Adj a = adjacency (f, codim);
  for (size_t i = 0; i < a.size (); ++i) for (auto & e : a[i]) if (abs (fl[i].l.level - fl[e.first].l.level) > 1) return false;
  return true;
}
Cuts uniform_cuts (i64 n, int P) { Cuts c (P + 1); for (int p = 0; p <= P; ++p) c[p] = (i64) (((__int128) n * p) / P); return c; }
Cuts draw_cuts (i64 n, int P) {
  Cuts c = uniform_cuts (n, P);
  switch (weighted ({ 35, 35, 15, 15 })) {
  case 0: break;
  case 1: for (int p = 1; p < P; ++p) c[p] = (i64) draw (n + 1); std::sort (c.begin (), c.end ()); break;
  case 2: { i64 a = (i64) draw (n + 1); for (int p = 1; p < P; ++p) c[p] = draw (2) ? a : std::min<i64> (n, a + draw (4)); std::sort (c.begin (), c.end ()); break; }
  case 3: { int k = (int) draw (P); for (int p = 0; p <= P; ++p) c[p] = p <= k ? 0 : n; break; }
  }
  c[0] = 0; c[P] = n;
  return c;
}

/* sometimes cut beside leaves of the finest levels, where little more than one position separates the processes */
Cuts draw_forest_cuts (const std::vector<GL> & leaves, int P) {
  Cuts c = draw_cuts ((i64) leaves.size (), P);
  if (P == 1 || leaves.empty () || !chance (20)) return c;
  int top = 0; for (auto & g : leaves) top = std::max (top, g.l.level);
  std::vector<i64> fine; for (size_t i = 0; i < leaves.size (); ++i) if (leaves[i].l.level + (int) (i & 1) >= top) fine.push_back ((i64) i);
  int m = std::min (P - 1, 1 + (int) draw (3));
  for (int k = 0; k < m; ++k) c[1 + (int) draw (P - 1)] = fine[draw (fine.size ())] + (i64) draw (2);
  std::sort (c.begin (), c.end ());
  c[0] = 0; c[P] = (i64) leaves.size ();
  label ("cut beside the finest leaves");
  return c;
}

/* ----------------------------------------------------- running for real */
int draw_P (int maxP) {
  if (maxP >= 7 && chance (getenv ("VERIF_BIGP") ? atoi (getenv ("VERIF_BIGP")) : 2)) { label ("P 18 to 60"); return range (18, 60); }
  switch (weighted ({ 10, 30, 35, 25 })) {
  case 0: return 1;
  case 1: return std::min (maxP, range (2, 3));
  case 2: return std::min (maxP, range (3, 7));
  }
  return range (1, maxP);
}
sim::Config draw_sim (int maxP) {
  sim::Config c;
  c.P = draw_P (maxP);
  c.policy = (int) draw (sim::N_POLICY);
  c.buffering = (int) draw (sim::N_BUFFERING);
  c.lax_collectives = (int) draw (2);
  c.seed = draw (1 << 30);
  c.nodesize = chance (50) ? range (1, 4) : 1 << 20;
  if (chance (35)) { c.sub = true; c.extra = (int) draw (3); c.perm = draw64 (); label ("part of the processes, permuted"); }
  return c;
}
void fill_bytes (void *dst, size_t n, u64 tag) { unsigned char *d = (unsigned char *) dst; for (size_t i = 0; i < n; ++i) d[i] = (unsigned char) (mix (tag, i / 8) >> (8 * (i % 8))); }
bool check_bytes (const void *src, size_t n, u64 tag) { const unsigned char *d = (const unsigned char *) src; for (size_t i = 0; i < n; ++i) if (d[i] != (unsigned char) (mix (tag, i / 8) >> (8 * (i % 8)))) return false; return true; }
int draw_data_size () { static const int s[] = { 8, 0, 1, 4, 24, 100, 13, 333 }; return s[draw (8)]; }

void draw_built (Built & b, const BuildOpts & o) {
  b.cfg = draw_sim (o.maxP);
  bool wide = o.wide && (int) draw (1000) >= 1000 - (getenv ("VERIF_FAN") ? atoi (getenv ("VERIF_FAN")) : asan () ? 0 : 4);
  b.conn = wide ? wide_fan (o.wide) : draw_conn (o.maxtrees, o.need_vertices);
  if (wide && chance (70)) b.cfg.P = std::min (o.wide + 10, b.conn.nt + (int) draw (4));
  b.wide = wide;
  if (wide) label (b.cfg.P >= 128 ? "20 or more trees around a vertex, 128 or more processes" : "20 or more trees around a vertex");
  b.tagseed = draw (1 << 16);
  b.data_size = o.data ? (size_t) draw_data_size () : 0;
  TagFn tag = [&b] (int t, const Leaf & l) { return b.tag (t, l); };
  int level = 0;
  { int want = range (0, 2); while (level < want && (i64) b.conn.nt << (DIM * (level + 1)) <= o.maxleaves) ++level; }
  b.forest = uniform (&b.conn, level, tag);
  int steps = range (0, 3);
  std::string txt;
  int cod = o.balance_codim;
  if (o.balance_any) cod = (int) draw (DIM + 1);
  for (int s = 0; s < steps; ++s) {
    Dec d = draw_refine_dec (b.conn, o.maxdeep);
    Forest old = b.forest;
    for (;;) {
      refine_capped (b.forest, d, true, o.maxdeep, o.maxleaves, tag);
      if (cod == 0) break;
      bool over = false;
      balance (b.forest, cod, tag, 2 * o.maxleaves, &over);
      if (!over) break;
      b.forest = old;
      if (d.lmax <= 1) break;
      d.lmax = d.lmax > 6 ? d.lmax - 3 : d.lmax - 1;
    }
    txt += " " + d.text ();
  }
  b.leaves = flat (b.forest);
  b.cuts = draw_forest_cuts (b.leaves, b.cfg.P);
  if (o.noempty && (i64) b.leaves.size () >= b.cfg.P) b.cuts = uniform_cuts ((i64) b.leaves.size (), b.cfg.P);
  describe ("dim %d conn %s (%d trees), uniform %d,%s balance %d -> %zu leaves, max level %d, P %d policy %d buf %d lax %d, data %zu; ",
            DIM, b.conn.name.c_str (), b.conn.nt, level, txt.c_str (), cod, b.leaves.size (), b.forest.maxlevel (), b.cfg.P, b.cfg.policy, b.cfg.buffering,
            b.cfg.lax_collectives, b.data_size);
  label ("dim %d", DIM);
  label ("P %s", b.cfg.P == 1 ? "1" : b.cfg.P <= 3 ? "2-3" : b.cfg.P <= 7 ? "4-7" : "8+");
  label ("max level %s", b.forest.maxlevel () <= 2 ? "0-2" : b.forest.maxlevel () <= 6 ? "3-6" : b.forest.maxlevel () < QML - 1 ? "7+" : "deepest");
  bool empty = false;
  for (int p = 0; p < b.cfg.P; ++p) empty |= b.cuts[p] == b.cuts[p + 1];
  if (empty) label ("empty processes");
  if (b.conn.name.find ("+rot") != std::string::npos) label ("rotated trees");
}

struct BuildCtx { const Built *b; };
static int build_refine (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) {
  const Built *b = ((BuildCtx *) p->user_pointer)->b;
  Leaf l = leaf_of (q);
  return b->forest.t[t][b->forest.find (t, l.key)].level > l.level;
}
p4est_t *build (const Built & b, void *up) {
  BuildCtx bc { &b };
  p4est_connectivity_t *c = b.conn.make ();
  p4est_t *p = p4est_new_ext (MPI_COMM_WORLD, c, 0, 0, 1, b.data_size, nullptr, &bc);
  p4est_refine (p, 1, build_refine, nullptr);
  std::vector<p4est_locidx_t> cnt (b.cfg.P);
  for (int i = 0; i < b.cfg.P; ++i) cnt[i] = (p4est_locidx_t) (b.cuts[i + 1] - b.cuts[i]);
  p4est_partition_given (p, cnt.data ());
  int me = p->mpirank;
  CHECK (p->local_num_quadrants == cnt[me] && p->global_num_quadrants == (i64) b.leaves.size (), "building the forest: process %d has %d leaves of %lld, expected %d of %zu",
         me, p->local_num_quadrants, (long long) p->global_num_quadrants, cnt[me], b.leaves.size ());
  i64 g = b.cuts[me];
  if (p->first_local_tree >= 0)
    for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
      for (size_t z = 0; z < tr->quadrants.elem_count; ++z, ++g) {
        p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z);
        CHECK (b.leaves[g].tree == t && b.leaves[g].l == leaf_of (q), "building the forest: leaf %lld is %s, expected %s", (long long) g,
               str (t, leaf_of (q)).c_str (), str (b.leaves[g].tree, b.leaves[g].l).c_str ());
        if (b.data_size) fill_bytes (q->p.user_data, b.data_size, b.leaves[g].l.tag);
      }
    }
  p->user_pointer = up;
  return p;
}
void destroy (p4est_t * p) {
  p4est_connectivity_t *c = p->connectivity;
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
void compare (p4est_t * p, const Conn & c, const Forest & f, const Cuts & cuts, bool data, const char *ctx) { compare_as (p, c, f, cuts, data, ctx, sim::rank ()); }
void compare_as (p4est_t * p, const Conn & c, const Forest & f, const Cuts & cuts, bool data, const char *ctx, int me) {
  int P = (int) cuts.size () - 1;
  i64 n = f.count ();
  CHECK (p->mpisize == P && p->mpirank == me, "%s: forest has rank %d of %d, expected %d of %d", ctx, p->mpirank, p->mpisize, me, P);
  if (p->global_num_quadrants != n) {
    std::string d; int shown = 0;
    for (int t = 0; t < c.nt; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
      for (size_t z = 0; z < tr->quadrants.elem_count && shown < 12; ++z) {
        Leaf l = leaf_of (p4est_quadrant_array_index (&tr->quadrants, z));
        const Leaf & m = f.t[t][f.find (t, l.key)];
        if (!(m == l)) { d += " got " + str (t, l) + " where the model has " + str (m) + ";"; ++shown; }
      }
    }
    CHECK (0, "%s: global count is %lld, expected %lld;%s", ctx, (long long) p->global_num_quadrants, (long long) n, d.c_str ());
  }
  CHECK (p->global_num_quadrants == n, "%s: global count is %lld, expected %lld", ctx, (long long) p->global_num_quadrants, (long long) n);
  CHECK (p->local_num_quadrants == cuts[me + 1] - cuts[me], "%s: process %d has %d leaves, expected %lld", ctx, me, p->local_num_quadrants,
         (long long) (cuts[me + 1] - cuts[me]));
  CHECK ((int) p->trees->elem_count == c.nt, "%s: number of trees is %zu", ctx, p->trees->elem_count);
  for (int i = 0; i <= P; ++i)
    CHECK (p->global_first_quadrant[i] == cuts[i], "%s: process %d: global offset of process %d is %lld, expected %lld", ctx, me, i,
           (long long) p->global_first_quadrant[i], (long long) cuts[i]);
  std::vector<i64> off (c.nt + 1, 0);
  for (int t = 0; t < c.nt; ++t) off[t + 1] = off[t] + (i64) f.t[t].size ();
  for (int i = 0; i <= P; ++i) {
    const p4est_quadrant_t *g = &p->global_first_position[i];
    int t = cuts[i] >= n ? c.nt : (int) (std::upper_bound (off.begin (), off.end (), cuts[i]) - off.begin ()) - 1;
    Key key = cuts[i] >= n ? 0 : f.t[t][cuts[i] - off[t]].key;
    Leaf l = leaf_of (g);
    CHECK (g->p.which_tree == t && l.key == key && l.level == QML, "%s: process %d: first position of process %d is tree %d %s, expected tree %d key %llx", ctx, me, i,
           (int) g->p.which_tree, str (l).c_str (), t, (unsigned long long) key);
  }
  if (cuts[me] == cuts[me + 1]) {
    CHECK (p->first_local_tree == -1 && p->last_local_tree == -2, "%s: empty process %d has local trees %d to %d", ctx, me, p->first_local_tree, p->last_local_tree);
  }
  i64 seen = 0;
  for (int t = 0; t < c.nt; ++t) {
    i64 a = std::max (off[t], cuts[me]), b = std::min (off[t + 1], cuts[me + 1]);
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    i64 want = b > a ? b - a : 0;
    CHECK ((i64) tr->quadrants.elem_count == want, "%s: process %d holds %zu leaves of tree %d, expected %lld", ctx, me, tr->quadrants.elem_count, t, (long long) want);
    std::vector<int> lev (ML + 1, 0); int maxl = 0;
    for (i64 k = 0; k < want; ++k) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, k);
      const Leaf & m = f.t[t][a - off[t] + k];
      Leaf l = leaf_of (q);
      CHECK (l == m, "%s: process %d: leaf %lld of tree %d is %s, expected %s", ctx, me, (long long) (a - off[t] + k), t, str (l).c_str (), str (m).c_str ());
      if (data && p->data_size && m.tag) CHECK (check_bytes (q->p.user_data, p->data_size, m.tag), "%s: process %d: wrong user data of leaf %s", ctx, me, str (t, l).c_str ());
      lev[l.level]++; maxl = std::max (maxl, l.level);
    }
    for (int l = 0; l <= ML; ++l)
      CHECK (tr->quadrants_per_level[l] == lev[l] || (l > maxl && tr->quadrants_per_level[l] == -1), "%s: process %d: tree %d counts %d leaves of level %d, expected %d", ctx, me, t,
             tr->quadrants_per_level[l], l, lev[l]);
    CHECK (tr->maxlevel == maxl, "%s: process %d: tree %d has maximum level %d, expected %d", ctx, me, t, tr->maxlevel, maxl);
    if (want > 0) {
      CHECK (t >= p->first_local_tree && t <= p->last_local_tree, "%s: process %d: tree %d outside of local tree range %d to %d", ctx, me, t, p->first_local_tree, p->last_local_tree);
      CHECK (tr->quadrants_offset == seen, "%s: process %d: tree %d has offset %d, expected %lld", ctx, me, t, tr->quadrants_offset, (long long) seen);
      Leaf fd = leaf_of (&tr->first_desc), ld = leaf_of (&tr->last_desc);
      CHECK (fd.level == QML && fd.key == f.t[t][a - off[t]].key, "%s: process %d: tree %d first descendant is %s", ctx, me, t, str (fd).c_str ());
      CHECK (ld.level == QML && ld.key == f.t[t][b - 1 - off[t]].end () - qvol (QML), "%s: process %d: tree %d last descendant is %s", ctx, me, t, str (ld).c_str ());
    }
    else CHECK (cuts[me] == cuts[me + 1] || t < p->first_local_tree || t > p->last_local_tree, "%s: process %d: tree %d without leaves inside the local tree range", ctx, me, t);
    seen += want;
  }
  eng::checks ((u64) seen + 1);
}

static void log_handler (FILE *, const char *, int, int, int, int, const char *msg) { engine_log (msg); }
void lib_init () {
  static bool done = false;
  if (done) return;
  done = true;
  sc_init (MPI_COMM_NULL, 0, 0, nullptr, SC_LP_SILENT);
#if VDIM == 3
  if (p4est_package_id < 0)
#endif
  p4est_init (nullptr, SC_LP_SILENT);
  sc_set_log_defaults (nullptr, log_handler, SC_LP_ERROR);
  sc_package_set_verbosity (sc_package_id, SC_LP_ERROR);
  sc_package_set_verbosity (p4est_package_id, SC_LP_ERROR);
}
static int open_files () { int n = 0; DIR *d = opendir ("/proc/self/fd"); while (d && readdir (d)) ++n; if (d) closedir (d); return n; }
MemMark mem_mark () { return { sc_memory_status (p4est_package_id), sc_memory_status (sc_package_id) + (sc_package_id >= 0 ? sc_memory_status (-1) : 0), open_files () }; }
void mem_check (const MemMark & m, const char *ctx) {
  MemMark n = mem_mark ();
  CHECK (n.p4 == m.p4, "%s: %d allocation(s) of the library were never freed", ctx, n.p4 - m.p4);
  CHECK (n.sc == m.sc, "%s: %d allocation(s) made through the support library were never freed", ctx, n.sc - m.sc);
  CHECK (n.files == m.files, "%s: %d file(s) are left open", ctx, n.files - m.files);
}
}
