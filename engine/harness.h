/* Reference model and generators, compiled once per dimension (-DVDIM=2/3). */
#ifndef HARNESS_H
#define HARNESS_H
#include "engine.h"
#include "simmpi.h"
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#if VDIM == 3
#include <p4est_to_p8est.h>
#include <p8est.h>
#include <p8est_bits.h>
#include <p8est_extended.h>
#include <p8est_algorithms.h>
#include <p8est_communication.h>
#include <p8est_connectivity.h>
#define DNS d3
#define D3(x) x
#else
#include <p4est.h>
#include <p4est_bits.h>
#include <p4est_extended.h>
#include <p4est_algorithms.h>
#include <p4est_communication.h>
#include <p4est_connectivity.h>
#define DNS d2
#define D3(x)
#endif
/* the communicator of a run: not necessarily the one of all processes */
#undef MPI_COMM_WORLD
#undef sc_MPI_COMM_WORLD
#define MPI_COMM_WORLD ((MPI_Comm) sim::world ())
#define sc_MPI_COMM_WORLD MPI_COMM_WORLD

namespace DNS {

using eng::mix;
typedef uint64_t u64;
typedef int64_t i64;
#if VDIM == 3
typedef unsigned __int128 Key;     /* 90 bits */
inline u64 kh (Key k) { return (u64) k ^ eng::mix ((u64) (k >> 64)); }
#else
typedef uint64_t Key;
inline u64 kh (Key k) { return k; }
#endif
enum { DIM = VDIM, NCH = 1 << VDIM, NF = 2 * VDIM, ML = P4EST_MAXLEVEL, QML = P4EST_QMAXLEVEL,
       NE = VDIM == 3 ? 12 : 0, NDIR = VDIM == 3 ? 27 : 9, HALF = NCH / 2 };
static const i64 RL = P4EST_ROOT_LEN;

/* ------------------------------------------------------------ positions */
struct Pt { i64 x[3] = { 0, 0, 0 }; bool operator== (const Pt & o) const { return x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2]; }
  bool operator< (const Pt & o) const { return std::lexicographical_compare (x, x + 3, o.x, o.x + 3); } };

Key interleave (const i64 * x);         /* coordinates in [0, RL) */
Pt deinterleave (Key key);
inline i64 qlen (int level) { return (i64) 1 << (ML - level); }
inline Key qvol (int level) { return (Key) 1 << (DIM * (ML - level)); }

struct Leaf {
  Key key; int level; u64 tag;
  bool operator== (const Leaf & o) const { return key == o.key && level == o.level; }
  bool operator< (const Leaf & o) const { return key != o.key ? key < o.key : level < o.level; }
  Key end () const { return key + qvol (level); }
  Leaf child (int c) const { return Leaf { key + (Key) c * qvol (level + 1), level + 1, 0 }; }
  Leaf parent () const { return Leaf { key & ~(qvol (level - 1) - 1), level - 1, 0 }; }
  int childid () const { return level == 0 ? 0 : (int) ((key / qvol (level)) & (NCH - 1)); }
};
inline Leaf leaf_of (const p4est_quadrant_t * q) {
  i64 x[3] = { q->x, q->y, 0 };
  D3 (x[2] = q->z;)
  return Leaf { interleave (x), q->level, 0 };
}
p4est_quadrant_t quad_of (const Leaf & l);
std::string str (const Leaf & l);
std::string str (int tree, const Leaf & l);

/* --------------------------------------------------------- connectivity */
struct FaceMap { bool boundary = true; int nt = -1, nf = -1; int axis[3]; int sign[3]; i64 off[3]; /* target[axis[a]] = sign[a] * x[a] + off[a] */ };
struct ClassEntry { int tree, idx, o; };

struct Conn {
  std::string name;
  int nv = 0, nt = 0, ne = 0, nc = 0;
  bool regular = false;         /* a part of a regular grid, possibly periodic: face and edge balance are exactly minimal */
  std::vector<double> vertices;
  std::vector<p4est_topidx_t> ttv, ttt, tte, ett_off, ett, ttc, ctt_off, ctt;
  std::vector<int8_t> ttf, ete, ctc;
  std::vector<FaceMap> fmap;    /* nt * NF */
  std::vector<std::vector<ClassEntry>> edges, corners;

  void from (const p4est_connectivity_t * c);
  void finish ();               /* derive maps */
  p4est_connectivity_t *make () const;
  bool same_as (const p4est_connectivity_t * c) const;
  /* all images, in any tree, of the box of side h based at p + h * d where d in {-1,0,1}^DIM;
     only crossings through the interface that d points to */
  struct Image { int tree; Pt p; int codim; };
  void images (int tree, const Pt & p, i64 h, const int *d, std::vector<Image> & out) const;
  Pt facepoint (int tree, int face, const Pt & p) const; /* affine map of a point */
  Pt facebox (int tree, int face, const Pt & p, i64 h) const;
  bool has_edge_class (int t, int e) const { return VDIM == 3 && ne > 0 && tte[t * 12 + e] >= 0; }
  bool has_corner_class (int t, int c) const { return nc > 0 && ttc[t * NCH + c] >= 0; }
  /* closure of all representations of a point under the stored topology; sorted */
  std::vector<std::pair<int, Pt>> point_class (int tree, const Pt & p, i64 R = RL) const;
};
FaceMap make_face_map (int f, int code);
int encode_face (int f, int nf, const std::function<int (int)> & cornermap); /* tree corner -> tree corner */
extern const int edge_axis_bits[12][3];
int face_corner (int f, int i);   /* i-th corner of face f */
Conn rotate_trees (const Conn & c, const std::vector<int> & rot);
int n_rotations ();
Conn draw_conn (int maxtrees = 64, bool need_vertices = false);

/* --------------------------------------------------------------- forest */
typedef std::vector<Leaf> Tree;
struct Forest {
  const Conn *conn = nullptr;
  std::vector<Tree> t;
  i64 count () const { i64 n = 0; for (auto & x : t) n += (i64) x.size (); return n; }
  /* leaf of tree containing key (the whole domain is covered) */
  int find (int tree, Key key) const { auto & v = t[tree]; int lo = 0, hi = (int) v.size (); while (hi - lo > 1) { int m = (lo + hi) / 2; if (v[m].key <= key) lo = m; else hi = m; } return lo; }
  int maxlevel () const { int m = 0; for (auto & x : t) for (auto & l : x) m = std::max (m, l.level); return m; }
};
struct GL { int tree; Leaf l; };        /* global leaf list element */
std::vector<GL> flat (const Forest & f);

/* decisions of callbacks: pure functions of (tree, quadrant) */
struct Dec {
  int kind = 0; u64 seed = 0; int density = 50; int lmax = 3; unsigned mask = 0;
  std::vector<std::pair<int, Key>> focus;
  bool operator() (int tree, const Leaf & q) const;
  std::string text () const;
};
Dec draw_refine_dec (const Conn & c, int maxdeep = QML);
struct CDec { int density = 100; u64 seed = 0; int lmin = 0; bool operator() (int tree, const Leaf & parent) const; };
CDec draw_coarsen_dec ();

typedef std::function<u64 (int, const Leaf &)> TagFn;
Forest uniform (const Conn * c, int level, const TagFn & tag);
/* returns false if the result would exceed cap leaves */
bool refine (Forest & f, const Dec & d, bool rec, int maxlevel, i64 cap, const TagFn & tag);
void balance (Forest & f, int codim, const TagFn & tag, i64 cap, bool *over); /* codim 1: face, 2: edge, 3: corner */
bool refine_capped (Forest & f, Dec & d, bool rec, int maxlevel, i64 cap, const TagFn & tag);
extern const int *direction (int k);    /* k-th of the NDIR directions */
inline int dir_codim (const int *d) { int n = 0; for (int i = 0; i < DIM; ++i) n += d[i] != 0; return n; }
inline int codim_of (p4est_connect_type_t b) { return b == P4EST_CONNECT_FACE ? 1 : b == P4EST_CONNECT_FULL ? DIM : 2; }
inline p4est_connect_type_t btype_of (int codim) { return codim == 1 ? P4EST_CONNECT_FACE : codim == DIM ? P4EST_CONNECT_FULL :
#if VDIM == 3
  P8EST_CONNECT_EDGE;
#else
  P4EST_CONNECT_FULL;
#endif
}
/* adjacency[i] = list of (j, codim of the contact, smallest), i and j flat indices; self contact omitted */
typedef std::vector<std::map<int, int>> Adj;
Adj adjacency (const Forest & f, int maxcodim);
bool is_balanced (const Forest & f, int codim);

/* cuts: P + 1 offsets into the flat leaf sequence */
typedef std::vector<i64> Cuts;
Cuts uniform_cuts (i64 n, int P);
Cuts draw_cuts (i64 n, int P);
Cuts draw_forest_cuts (const std::vector<GL> & leaves, int P);
inline int owner_of (const Cuts & c, i64 i) { return (int) (std::upper_bound (c.begin (), c.end (), i) - c.begin ()) - 1; }

/* ----------------------------------------------------- running for real */
sim::Config draw_sim (int maxP = 17);
int draw_P (int maxP);
void fill_bytes (void *dst, size_t n, u64 tag);
bool check_bytes (const void *src, size_t n, u64 tag);
int draw_data_size ();

struct Built {
  Built () { } Built (const Built &) = delete; Built & operator= (const Built &) = delete;
  /* a forest given by the model, realized by every rank */
  Conn conn; Forest forest; Cuts cuts; size_t data_size = 0; sim::Config cfg;
  std::vector<GL> leaves; u64 tagseed = 0; bool wide = false;
  u64 tag (int tree, const Leaf & l) const { return mix (tagseed, mix ((u64) tree, kh (l.key), (u64) l.level)); }
};
struct BuildOpts { int maxP = 13; i64 maxleaves = 600; int balance_codim = 0; /* 0: unbalanced or any */
  int maxtrees = 64; bool data = true; bool need_vertices = false; int maxdeep = QML; bool balance_any = false; bool noempty = false;
  int wide = 0; /* sometimes about this many trees around one vertex or edge */ };
void draw_built (Built & b, const BuildOpts & o);
/* collective; the returned forest owns a connectivity made for this rank */
p4est_t *build (const Built & b, void *user_pointer = nullptr);
void destroy (p4est_t * p);     /* with its connectivity */
/* full comparison of this rank's part with the model; ctx names the moment */
void compare (p4est_t * p, const Conn & c, const Forest & f, const Cuts & cuts, bool data, const char *ctx);
void compare_as (p4est_t * p, const Conn & c, const Forest & f, const Cuts & cuts, bool data, const char *ctx, int me); /* process me of the forest's communicator */
inline void compare (p4est_t * p, const Built & b, const char *ctx) { compare (p, b.conn, b.forest, b.cuts, b.data_size > 0, ctx); }
void set_tags (Forest & f, const TagFn & tag);
i64 tree_offset (const Forest & f, int t);

/* library memory accounting */
struct MemMark { int p4, sc, files; };
MemMark mem_mark ();
void mem_check (const MemMark & m, const char *ctx);
void lib_init ();

extern int g_thorough;
}
#endif
