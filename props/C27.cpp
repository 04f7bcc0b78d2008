/* Collective operations under many schedules: they end, leave nothing behind and give one result */
#include "harness.h"
#include <mpi.h>
#if VDIM == 3
#include <p8est_ghost.h>
#include <p8est_io.h>
#include <p8est_lnodes.h>
#include <p8est_mesh.h>
#include <p8est_nodes.h>
#include <p8est_points.h>
#include <p8est_plex.h>
#include <p8est_search.h>
#include <p8est_vtk.h>
#include <p8est_wrap.h>
#else
#include <p4est_ghost.h>
#include <p4est_io.h>
#include <p4est_lnodes.h>
#include <p4est_mesh.h>
#include <p4est_nodes.h>
#include <p4est_points.h>
#include <p4est_plex.h>
#include <p4est_search.h>
#include <p4est_vtk.h>
#include <p4est_wrap.h>
#include <p6est.h>
#include <p6est_extended.h>
#include <p6est_ghost.h>
#include <p6est_lnodes.h>
#endif
namespace DNS {
using namespace eng;

/* a digest of everything an operation returned on this process */
struct Dig {
  u64 h = 1;
  Dig & n (u64 v) { h = mix (h, v); return *this; }
  Dig & b (const void *p, size_t len) { const unsigned char *c = (const unsigned char *) p; n (len); for (size_t i = 0; i < len; i += 8) { u64 v = 0; memcpy (&v, c + i, std::min<size_t> (8, len - i)); n (v); } return *this; }
  template <class T> Dig & v (const T * p, size_t k) { return p ? b (p, k * sizeof (T)) : n (77); }
  Dig & a (sc_array_t * x) { if (!x) return n (78); return b (x->array, x->elem_count * x->elem_size); }
  Dig & q (const p4est_quadrant_t * x) { n ((u64) (i64) x->x).n ((u64) (i64) x->y); D3 (n ((u64) (i64) x->z);) return n ((u64) x->level); }
};
static void dig_forest (Dig & d, p4est_t * p) {
  d.n (p->local_num_quadrants).n (p->global_num_quadrants).n ((u64) p->first_local_tree).n ((u64) p->last_local_tree).n ((u64) p->revision);
  d.v (p->global_first_quadrant, p->mpisize + 1);
  for (int i = 0; i <= p->mpisize; ++i) d.q (p->global_first_position + i).n (p->global_first_position[i].p.which_tree);
  for (p4est_topidx_t t = std::max (0, p->first_local_tree); t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    d.n (tr->quadrants_offset);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) { p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z); d.q (q); if (p->data_size) d.b (q->p.user_data, p->data_size); }
  }
}
static void dig_ghost (Dig & d, p4est_ghost_t * g) {
  for (sc_array_t *x : { &g->ghosts, &g->mirrors }) for (size_t z = 0; z < x->elem_count; ++z) { p4est_quadrant_t *q = p4est_quadrant_array_index (x, z); d.q (q).n (q->p.piggy3.which_tree).n ((u64) (i64) q->p.piggy3.local_num); }
  d.v (g->tree_offsets, g->num_trees + 1).v (g->mirror_tree_offsets, g->num_trees + 1).v (g->proc_offsets, g->mpisize + 1).v (g->mirror_proc_offsets, g->mpisize + 1);
  d.v (g->mirror_proc_mirrors, (size_t) g->mirror_proc_offsets[g->mpisize]);
}
static void dig_lnodes (Dig & d, p4est_lnodes_t * l, int P) {
  d.n (l->num_local_nodes).n (l->owned_count).n (l->global_offset).n (l->num_local_elements);
  d.v (l->nonlocal_nodes, (size_t) (l->num_local_nodes - l->owned_count)).v (l->global_owned_count, P);
  d.v (l->face_code, (size_t) l->num_local_elements).v (l->element_nodes, (size_t) l->num_local_elements * (size_t) l->vnodes);
  for (size_t z = 0; z < l->sharers->elem_count; ++z) { p4est_lnodes_rank_t *r = p4est_lnodes_rank_array_index (l->sharers, z); d.n ((u64) r->rank).a (&r->shared_nodes).n ((u64) (i64) r->shared_mine_offset).n (r->shared_mine_count).n ((u64) (i64) r->owned_offset).n (r->owned_count); }
}
static void dig_mesh (Dig & d, p4est_mesh_t * m) {
  size_t n = (size_t) m->local_num_quadrants;
  d.n (n).n (m->ghost_num_quadrants).v (m->quad_to_tree, n).v (m->ghost_to_proc, (size_t) m->ghost_num_quadrants).v (m->quad_to_quad, n * NF).v (m->quad_to_face, n * NF).a (m->quad_to_half);
  D3 (d.v (m->quad_to_edge, n * 12).a (m->edge_offset).a (m->edge_quad).a (m->edge_edge);)
  d.v (m->quad_to_corner, n * NCH).a (m->corner_offset).a (m->corner_quad).a (m->corner_corner);
}
static void dig_nodes (Dig & d, p4est_nodes_t * m, int P) {
  d.n (m->num_owned_indeps).n (m->num_owned_shared).n (m->offset_owned_indeps);
  for (size_t z = 0; z < m->indep_nodes.elem_count; ++z) { p4est_indep_t *q = (p4est_indep_t *) sc_array_index (&m->indep_nodes, z); d.n ((u64) q->x).n ((u64) q->y).n (q->p.piggy3.which_tree).n (q->p.piggy3.local_num).n ((u64) (i64) q->pad8); }
  d.v (m->local_nodes, (size_t) m->num_local_quadrants * NCH).v (m->nonlocal_ranks, m->indep_nodes.elem_count - (size_t) m->num_owned_indeps).v (m->global_owned_indeps, P);
}
static void dig_file (Dig & d, const std::string & name) {
  FILE *f = fopen (name.c_str (), "rb"); if (!f) { d.n (404); return; }
  char buf[4096]; size_t k; while ((k = fread (buf, 1, sizeof buf, f)) > 0) d.b (buf, k);
  fclose (f);
}

enum { REFINE = 0, COARSEN, BALANCE, PARTITION, GIVEN, SUMS, GHOST, LNODES, NODES, MESH, COPY, FILEIO, TRANSFER, BCAST, WRAP, POINTS, REDUCE, INFLATE, VTK, PLEX, ISBAL, SYNC, SHEET, NOPS };
static const char *oname[] = { "refine", "coarsen", "balance", "partition", "partition_given", "checksums", "ghost", "lnodes", "nodes", "mesh", "copy", "save and load", "partition and transfer", "connectivity bcast", "wrap", "points", "reduce", "deflate and inflate", "vtk", "plex", "is_balanced", "helpers", "p6est" };
struct Op { int kind; u64 seed; int k[6]; Dec dec; Cuts cuts; };

struct Rank {
  p4est_t *p; std::vector<u64> log; const Op *op = nullptr; const Built *b; int me;
  bool shipping = false; size_t file = 0;
};
static Rank *self (p4est_t * p) { return (Rank *) p->user_pointer; }
static void cb_init (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { if (p->data_size) fill_bytes (q->p.user_data, p->data_size, mix (77, mix ((u64) t, kh (leaf_of (q).key), (u64) q->level))); }
static int cb_refine (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { return self (p)->op->dec (t, leaf_of (q)); }
static int cb_coarsen (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t ** q) { if (!q[1]) return 0; Leaf l = leaf_of (q[0]).parent (); return (int) (mix (self (p)->op->seed, mix ((u64) t, kh (l.key), (u64) l.level)) % 100) < self (p)->op->k[1]; }
static int cb_weight (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { return (int) (mix (self (p)->op->seed, mix ((u64) t, kh (leaf_of (q).key))) % 8); }

static void exchange (Rank & R, Dig & d, p4est_ghost_t * g, const Op & o) {
  size_t ng = g->ghosts.elem_count, nm = g->mirrors.elem_count; int me = R.me;
  size_t es = (size_t) (1 + o.seed % 24);
  std::vector<unsigned char> m0 (nm * es + 1), g0 (ng * es + 1, 0x11), g1 (ng * es + 1, 0x22), gd (ng * (R.p->data_size ? R.p->data_size : sizeof (void *)) + 1, 0x33);
  std::vector<void *> mp (nm + 1);
  for (size_t i = 0; i < nm; ++i) { mp[i] = m0.data () + i * es; fill_bytes (mp[i], es, mix (o.seed, (u64) me, i)); }
  if (o.k[2] & 1) {
    p4est_ghost_exchange_t *a = p4est_ghost_exchange_custom_begin (R.p, g, es, mp.data (), g0.data ());
    p4est_ghost_exchange_t *b = p4est_ghost_exchange_custom_levels_begin (R.p, g, 1, 3, es, mp.data (), g1.data ());
    p4est_ghost_exchange_t *c = R.p->data_size ? p4est_ghost_exchange_data_begin (R.p, g, gd.data ()) : nullptr;
    d.n (p4est_checksum (R.p));
    if (o.k[2] & 2) { p4est_ghost_exchange_custom_levels_end (b); p4est_ghost_exchange_custom_end (a); if (c) p4est_ghost_exchange_data_end (c); }
    else { if (c) p4est_ghost_exchange_data_end (c); p4est_ghost_exchange_custom_end (a); p4est_ghost_exchange_custom_levels_end (b); }
  }
  else {
    p4est_ghost_exchange_custom (R.p, g, es, mp.data (), g0.data ());
    p4est_ghost_exchange_custom_levels (R.p, g, 0, 2, es, mp.data (), g1.data ());
    if (R.p->data_size) p4est_ghost_exchange_data (R.p, g, gd.data ());
  }
  d.v (g0.data (), g0.size ()).v (g1.data (), g1.size ()).v (gd.data (), gd.size ());
}

static void transfers (Dig & d, p4est_t * p, const Op & o, const std::vector<p4est_gloidx_t> & src) {
  int me = sim::rank (), P = p->mpisize;
  std::vector<p4est_gloidx_t> dst (p->global_first_quadrant, p->global_first_quadrant + P + 1);
  size_t es = 1 + o.seed % 17;
  auto cnt = [&] (i64 g) { return (int) (mix (o.seed, 3, (u64) g) % 5); };
  std::vector<unsigned char> sd, dd ((size_t) (dst[me + 1] - dst[me]) * es + 1, 0x44), sc, dc;
  std::vector<int> ss, ds;
  for (i64 g = src[me]; g < src[me + 1]; ++g) { for (size_t k = 0; k < es; ++k) sd.push_back ((unsigned char) mix (o.seed, (u64) g, k)); ss.push_back (cnt (g)); for (int k = 0; k < ss.back (); ++k) for (size_t j = 0; j < 3; ++j) sc.push_back ((unsigned char) mix (o.seed + 1, (u64) g, (u64) k * 3 + j)); }
  size_t dn = 0; for (i64 g = dst[me]; g < dst[me + 1]; ++g) { ds.push_back (cnt (g)); dn += 3 * (size_t) cnt (g); }
  std::vector<int> d2 (ds.size () + 1, -1);
  dc.assign (dn + 1, 0x55); sd.push_back (0); sc.push_back (0); ss.push_back (0); ds.push_back (0);
  if (o.k[3] & 1) {
    p4est_transfer_context_t *a = p4est_transfer_fixed_begin (dst.data (), src.data (), MPI_COMM_WORLD, 5, dd.data (), sd.data (), es);
    p4est_transfer_context_t *b = p4est_transfer_fixed_begin (dst.data (), src.data (), MPI_COMM_WORLD, 6, d2.data (), ss.data (), sizeof (int));
    p4est_transfer_context_t *c = p4est_transfer_items_begin (dst.data (), src.data (), MPI_COMM_WORLD, 7, dc.data (), ds.data (), sc.data (), ss.data (), 3);
    d.n (p4est_checksum (p));
    if (o.k[3] & 2) { p4est_transfer_items_end (c); p4est_transfer_fixed_end (b); p4est_transfer_fixed_end (a); }
    else { p4est_transfer_fixed_end (a); p4est_transfer_fixed_end (b); p4est_transfer_items_end (c); }
  }
  else {
    p4est_transfer_fixed (dst.data (), src.data (), MPI_COMM_WORLD, 5, dd.data (), sd.data (), es);
    p4est_transfer_fixed (dst.data (), src.data (), MPI_COMM_WORLD, 5, d2.data (), ss.data (), sizeof (int));
    p4est_transfer_items (dst.data (), src.data (), MPI_COMM_WORLD, 5, dc.data (), ds.data (), sc.data (), ss.data (), 3);
  }
  d.v (dd.data (), dd.size ()).v (d2.data (), d2.size ()).v (dc.data (), dc.size ());
}

#if VDIM == 2
static int c6_rl (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * l) { Rank *R = (Rank *) p->user_pointer; return l->level < 4 && (int) (mix (R->op->seed, mix ((u64) t, kh (leaf_of (c).key), (u64) l->z)) % 100) < R->op->k[1]; }
static int c6_rc (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c) { Rank *R = (Rank *) p->user_pointer; return c->level < 3 && (int) (mix (R->op->seed, mix ((u64) t, kh (leaf_of (c).key))) % 100) < R->op->k[1]; }
static void dig_sheet (Dig & d, p6est_t * p) {
  d.v (p->global_first_layer, p->mpisize + 1).n (p->layers->elem_count);
  for (size_t z = 0; z < p->layers->elem_count; ++z) { p2est_quadrant_t *l = p2est_quadrant_array_index (p->layers, z); d.n ((u64) l->z).n ((u64) l->level); if (p->data_size) d.b (l->p.user_data, p->data_size); }
}
static void c6_init (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * l) { if (p->data_size) fill_bytes (l->p.user_data, p->data_size, mix ((u64) t, mix (kh (leaf_of (c).key), (u64) l->z, (u64) l->level))); }
static void sheet (Rank & R, Dig & d, const Op & o) {
  double hi[3] = { 0, 0, 1 };
  p6est_connectivity_t *c6 = p6est_connectivity_new (R.p->connectivity, nullptr, hi);
  p6est_t *s = p6est_new_ext (MPI_COMM_WORLD, c6, 0, 0, 1, 1, 1, o.k[0] & 1 ? 8 : 0, c6_init, &R);
  p6est_refine_columns (s, 0, c6_rc, c6_init); p6est_refine_layers (s, o.k[0] >> 1 & 1, c6_rl, c6_init);
  p6est_partition (s, nullptr);
  if (o.k[2] & 1) p6est_balance (s, o.k[2] & 2 ? P8EST_CONNECT_FULL : P8EST_CONNECT_FACE, c6_init);
  d.n (p6est_checksum (s) * (R.me == 0));
  if (o.k[3] & 1) { std::vector<p4est_locidx_t> n; for (int i = 0; i < R.b->cfg.P; ++i) n.push_back ((p4est_locidx_t) (s->global_first_layer[i + 1] - s->global_first_layer[i])); std::reverse (n.begin (), n.end ()); p6est_partition_correct (s, n.data ()); p6est_partition_given (s, n.data ()); }
  dig_sheet (d, s);
  if (o.k[4] & 1) {
    p6est_balance (s, P8EST_CONNECT_FULL, c6_init);
    p6est_ghost_t *g = p6est_ghost_new (s, P4EST_CONNECT_FULL); if (o.k[4] & 2) p6est_ghost_expand (s, g);
    d.n (g->ghosts.elem_count).v (g->proc_offsets, (size_t) g->mpisize + 1).v (g->mirror_proc_mirrors, (size_t) g->mirror_proc_offsets[g->mpisize]);
    p6est_ghost_t *g1 = o.k[4] & 2 ? p6est_ghost_new (s, P4EST_CONNECT_FULL) : g;
    p6est_lnodes_t *l = p6est_lnodes_new (s, g1, 1 + o.k[5] % 2); d.n (l->num_local_nodes).v (l->element_nodes, (size_t) l->num_local_elements * (size_t) l->vnodes).v (l->nonlocal_nodes, (size_t) (l->num_local_nodes - l->owned_count));
    p6est_lnodes_destroy (l); if (g1 != g) p6est_ghost_destroy (g1); p6est_ghost_destroy (g);
  }
  if (o.k[5] & 4) {
    char nm[40]; snprintf (nm, sizeof nm, "sheet%zu", R.file++);
    p6est_save_ext (nm, s, 1, o.k[5] & 1); p6est_connectivity_t *n6 = nullptr;
    p6est_t *t = p6est_load_ext (nm, MPI_COMM_WORLD, s->data_size, 1, 1, o.k[5] & 2, &R, &n6); dig_sheet (d, t); p6est_destroy (t); p6est_connectivity_destroy (n6);
    if (R.me == 0) dig_file (d, nm);
  }
  p6est_destroy (s); p6est_connectivity_destroy (c6);
}
#endif

static void apply (Rank & R, const Op & o) {
  Dig d; p4est_t *& p = R.p; R.op = &o; int P = R.b->cfg.P, me = R.me;
  auto full = [&] { p4est_balance (p, P4EST_CONNECT_FULL, cb_init); };
  switch (o.kind) {
  case REFINE: p4est_refine_ext (p, o.k[0] & 1, 6, cb_refine, cb_init, nullptr); break;
  case COARSEN: p4est_coarsen_ext (p, o.k[0] & 1, 0, cb_coarsen, cb_init, nullptr); break;
  case BALANCE: {
    p4est_inspect_t ins; memset (&ins, -1, sizeof ins);
    ins.use_balance_ranges = o.k[0] & 1; ins.use_balance_ranges_notify = o.k[0] >> 1 & 1; ins.use_balance_verify = o.k[0] >> 2 & 1; ins.balance_max_ranges = o.k[1] % 4; ins.balance_comm_sent = 0; ins.balance_comm_nzpeers = 0;
    if (o.k[2] & 1) p->inspect = &ins;
    p4est_balance (p, btype_of (1 + o.k[3] % DIM), cb_init); p->inspect = nullptr;
    break; }
  case PARTITION: d.n (p4est_partition_ext (p, o.k[0] & 1, o.k[1] & 1 ? cb_weight : nullptr)); break;
  case GIVEN: { i64 N = p->global_num_quadrants; std::vector<p4est_locidx_t> n; i64 last = 0; for (int i = 1; i <= P; ++i) { i64 c = i == P ? N : std::max<i64> (last, (i64) (mix (o.seed, (u64) i) % (u64) (N + 1))); n.push_back ((p4est_locidx_t) (c - last)); last = c; }
      if (o.k[0] & 1) { d.n (p4est_partition_for_coarsening (p, n.data ())); d.v (n.data (), n.size ()); }
      d.n (p4est_partition_given (p, n.data ())); break; }
  case SUMS: d.n (p4est_checksum (p)).n (p4est_checksum_partition (p)).n (p4est_is_valid (p)).n (p4est_connectivity_is_valid (p->connectivity)); break;
  case GHOST: {
    p4est_ghost_t *g = p4est_ghost_new (p, btype_of (1 + o.k[0] % DIM)); dig_ghost (d, g);
    if (o.k[1] & 1) exchange (R, d, g, o);
    for (int i = 0; i < o.k[1] % 3; ++i) { p4est_ghost_expand (p, g); dig_ghost (d, g); }
    d.n (p4est_ghost_checksum (p, g) * (me == 0));
    if (o.k[1] & 2) exchange (R, d, g, o);
    CHECK (p4est_ghost_is_valid (p, g), "process %d: the ghost layer is not valid", me);
    p4est_ghost_destroy (g); break; }
  case LNODES: {
    full ();
    p4est_ghost_t *g = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    static const int dg[] = { 1, 2, 3, -1, -DIM, -(DIM - 1) }; int deg = dg[o.k[0] % 6]; if (o.k[5] & 1) deg = -DIM;
    p4est_lnodes_t *l = p4est_lnodes_new (p, g, deg); dig_lnodes (d, l, P);
    size_t n = (size_t) l->num_local_nodes;
    sc_array_t *a = sc_array_new_count (sizeof (double), n), *c = sc_array_new_count (sizeof (int), n);
    for (size_t i = 0; i < n; ++i) { *(double *) sc_array_index (a, i) = (double) (i64) (mix (o.seed, (u64) me, i) % 1000); *(int *) sc_array_index (c, i) = (int) (mix (o.seed, (u64) me, i + 1) % 1000); }
    if (o.k[1] & 1) {
      p4est_lnodes_buffer_t *x = p4est_lnodes_share_owned_begin (a, l), *y = p4est_lnodes_share_all_begin (c, l);
      d.n (p4est_checksum (p));
      if (o.k[1] & 2) { p4est_lnodes_share_all_end (y); p4est_lnodes_share_owned_end (x); } else { p4est_lnodes_share_owned_end (x); p4est_lnodes_share_all_end (y); }
      for (size_t i = 0; i < y->recv_buffers->elem_count; ++i) d.a ((sc_array_t *) sc_array_index (y->recv_buffers, i));
      p4est_lnodes_buffer_destroy (y); p4est_lnodes_buffer_destroy (x);
    }
    else { p4est_lnodes_share_owned (a, l); p4est_lnodes_buffer_t *y = p4est_lnodes_share_all (c, l); for (size_t i = 0; i < y->recv_buffers->elem_count; ++i) d.a ((sc_array_t *) sc_array_index (y->recv_buffers, i)); p4est_lnodes_buffer_destroy (y); }
    d.a (a); sc_array_destroy (a); sc_array_destroy (c);
    if (o.k[5] & 1) { p4est_ghost_support_lnodes (p, l, g); dig_ghost (d, g); if (o.k[5] & 2) { p4est_ghost_expand_by_lnodes (p, l, g); dig_ghost (d, g); } }
    p4est_lnodes_destroy (l); p4est_ghost_destroy (g);
    if (o.k[2] & 1) { g = p4est_ghost_new (p, P4EST_CONNECT_FULL); p4est_partition_lnodes (p, o.k[2] & 2 ? g : nullptr, 1 + o.k[0] % 3, o.k[2] >> 2 & 1); p4est_ghost_destroy (g); }
    break; }
  case NODES: { full (); p4est_ghost_t *g = o.k[0] & 1 || P > 1 ? p4est_ghost_new (p, P4EST_CONNECT_FULL) : nullptr; p4est_nodes_t *n = p4est_nodes_new (p, g); dig_nodes (d, n, P); p4est_nodes_destroy (n); if (g) p4est_ghost_destroy (g); break; }
  case MESH: { full (); p4est_ghost_t *g = p4est_ghost_new (p, P4EST_CONNECT_FULL); p4est_mesh_t *m = p4est_mesh_new_ext (p, g, 1, 1, btype_of (1 + o.k[0] % DIM)); dig_mesh (d, m); p4est_mesh_destroy (m); p4est_ghost_destroy (g); break; }
  case COPY: { p4est_t *c = p4est_copy_ext (p, 1, (o.k[0] & 1) || (p->mpicomm_owned && (o.k[2] & 1))); if (o.k[1] & 1) { p4est_partition (c, 0, nullptr); p4est_checksum (p); } d.n (p4est_is_equal (p, c, 1)); dig_forest (d, c); if (o.k[2] & 1) { std::swap (p, c); c->user_pointer = nullptr; p->user_pointer = &R; } p4est_destroy (c); break; }
  case FILEIO: {
    char nm[40]; snprintf (nm, sizeof nm, "forest%zu", R.file++);
    p4est_save_ext (nm, p, 1, o.k[0] & 1); p4est_connectivity_t *c = nullptr;
    p4est_t *l = p4est_load_ext (nm, MPI_COMM_WORLD, p->data_size, p->data_size > 0, o.k[1] & 1 || !(o.k[0] & 1), o.k[2] & 1, &R, &c);
    dig_forest (d, l); if (me == 0) dig_file (d, nm);
    if (o.k[3] & 1) { p4est_connectivity_t *old = p->connectivity; p4est_destroy (p); p4est_connectivity_destroy (old); p = l; } else { p4est_destroy (l); p4est_connectivity_destroy (c); }
    break; }
  case TRANSFER: { std::vector<p4est_gloidx_t> src (p->global_first_quadrant, p->global_first_quadrant + P + 1); p4est_partition_ext (p, 0, o.k[0] & 1 ? cb_weight : nullptr); transfers (d, p, o, src); break; }
  case BCAST: {
    int root = (int) (o.seed % (u64) P); p4est_connectivity_t *c = me == root ? R.b->conn.make () : nullptr;
    c = p4est_connectivity_bcast (c, root, MPI_COMM_WORLD); d.n (R.b->conn.same_as (c)); p4est_connectivity_destroy (c);
    break; }
  case WRAP: {
    p4est_wrap_t *w = p4est_wrap_new_ext (MPI_COMM_WORLD, R.b->conn.make (), 1, 0, P4EST_CONNECT_FULL, nullptr, nullptr);
    for (int i = 0; i < 1 + o.k[0] % 3; ++i) {
      for (p4est_wrap_leaf_t *l = p4est_wrap_leaf_first (w, 0); l; l = p4est_wrap_leaf_next (l)) { u64 x = mix (o.seed + (u64) i, mix ((u64) l->which_tree, kh (leaf_of (l->quad).key))) % 100; if (x < 15 && l->quad->level < 5) p4est_wrap_mark_refine (w, l->which_tree, l->which_quad); else if (x > 60) p4est_wrap_mark_coarsen (w, l->which_tree, l->which_quad); }
      int ch = p4est_wrap_adapt (w); d.n ((u64) ch);
      if (ch) { p4est_locidx_t a, b, c; int pc = p4est_wrap_partition (w, (int) (o.k[1] % 3) - 1 < 0 ? 0 : o.k[1] % 3 - 1, &a, &b, &c); d.n ((u64) pc).n ((u64) a).n ((u64) b).n ((u64) c); if (pc) p4est_wrap_complete (w); }
      dig_forest (d, w->p4est); dig_ghost (d, p4est_wrap_get_ghost (w)); dig_mesh (d, p4est_wrap_get_mesh (w));
    }
    p4est_wrap_destroy (w); break; }
  case POINTS: {
    int m = (int) (mix (o.seed, (u64) me) % 12); if (o.k[0] & 1 && me == 0) m = 0;
    int any = 0; for (int r = 0; r < P; ++r) any += (int) (mix (o.seed, (u64) r) % 12);
    if (any - (o.k[0] & 1 ? (int) (mix (o.seed, 0) % 12) : 0) <= 0) break;
    p4est_quadrant_t *q = P4EST_ALLOC_ZERO (p4est_quadrant_t, m + 1);
    for (int i = 0; i < m; ++i) { u64 z = mix (o.seed + 5, (u64) me, (u64) i); q[i].x = (p4est_qcoord_t) (z % (u64) RL) & ~1; q[i].y = (p4est_qcoord_t) ((z >> 20) % (u64) RL) & ~1; D3 (q[i].z = (p4est_qcoord_t) (mix (z) % (u64) RL) & ~1;) q[i].level = ML; q[i].p.which_tree = (p4est_topidx_t) (z % (u64) R.b->conn.nt); }
    p4est_connectivity_t *c = R.b->conn.make ();
    p4est_t *f = p4est_new_points (MPI_COMM_WORLD, c, o.k[1] % 8, q, m, 1 + o.k[2] % 3, 0, nullptr, nullptr); dig_forest (d, f);
    p4est_destroy (f); p4est_connectivity_destroy (c); P4EST_FREE (q); break; }
  case REDUCE: {
    p4est_t *c = p4est_copy_ext (p, 0, o.k[0] & 1); c->user_pointer = &R; if (o.k[1] & 1) { R.op = &o; p4est_partition_ext (c, 0, cb_weight); }
    if (o.k[2] & 1 && !c->mpicomm_owned) p4est_comm_parallel_env_duplicate (c);
    int *map = nullptr; int kept = p4est_comm_parallel_env_reduce_ext (&c, MPI_GROUP_NULL, 0, &map);
    d.n ((u64) kept).n (c == nullptr);
    if (c) { d.n (p4est_checksum (c)).n ((u64) c->mpisize); p4est_partition (c, 0, nullptr); d.n (p4est_is_valid (c)); if (map) { d.v (map, (size_t) c->mpisize); } p4est_destroy (c); }
    if (map) P4EST_FREE (map);
    break; }
  case INFLATE: {
    sc_array_t *dat = nullptr, *q = p4est_deflate_quadrants (p, p->data_size ? &dat : nullptr); std::vector<p4est_locidx_t> pt;
    std::vector<p4est_gloidx_t> per (R.b->conn.nt + 1); p4est_comm_count_pertree (p, per.data ());
    p4est_t *f = p4est_inflate (MPI_COMM_WORLD, p->connectivity, p->global_first_quadrant, per.data (), q, dat, &R);
    dig_forest (d, f); d.v (per.data (), per.size ()).n (p4est_is_equal (p, f, 1));
    p4est_destroy (f); sc_array_destroy (q); if (dat) sc_array_destroy (dat);
    break; }
  case VTK: {
    if (!R.b->conn.nv) break;
    char nm[40]; snprintf (nm, sizeof nm, "vtk%zu", R.file++);
    p4est_vtk_write_file (p, nullptr, nm); char f[80]; snprintf (f, sizeof f, "%s_%04d.vtu", nm, me); dig_file (d, f);
    if (me == 0) dig_file (d, std::string (nm) + ".pvtu");
    break; }
  case PLEX: {
    if (!R.b->conn.nv) break;
    full ();
    sc_array_t *a[10]; for (int i = 0; i < 10; ++i) a[i] = sc_array_new (i == 4 ? 3 * sizeof (double) : i == 9 ? 2 * sizeof (p4est_locidx_t) : sizeof (p4est_locidx_t));
    p4est_locidx_t flq = -1; p4est_get_plex_data (p, P4EST_CONNECT_FULL, o.k[0] % 3, &flq, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    d.n ((u64) flq); for (auto x : a) { d.a (x); sc_array_destroy (x); }
    break; }
  case ISBAL: for (int i = 1; i <= DIM; ++i) d.n (p4est_is_balanced (p, btype_of (i))); break;
  case SYNC: {
    d.n ((u64) p4est_comm_sync_flag (p, (int) (o.seed >> me & 1), o.k[0] & 1 ? MPI_BAND : MPI_BOR));
    std::vector<p4est_gloidx_t> per (R.b->conn.nt + 1); p4est_comm_count_pertree (p, per.data ()); d.v (per.data (), per.size ());
    p4est_comm_count_quadrants (p); p4est_comm_global_partition (p, nullptr);
    unsigned crc = p4est_comm_checksum (p, (unsigned) mix (o.seed, (u64) me), 10); d.n (me == 0 ? crc : 0);
    break; }
#if VDIM == 2
  case SHEET: sheet (R, d, o); break;
#endif
  default: break;
  }
  dig_forest (d, p);
  R.log.push_back (d.h);
}

void prop () {
  Built b; BuildOpts o; o.maxP = thorough () ? 12 : 8; o.maxleaves = thorough () ? 250 : 110; o.balance_any = true; o.maxtrees = 12; o.maxdeep = 12;
  draw_built (b, o);
  int n = range (1, thorough () ? 7 : 4);
  std::vector<Op> ops; std::string txt;
  for (int i = 0; i < n; ++i) {
    Op x; x.kind = (int) draw (VDIM == 2 ? NOPS : SHEET); x.seed = draw (1 << 20);
    for (auto & k : x.k) k = (int) draw (60);
    x.dec = draw_refine_dec (b.conn, 5);
    if (x.kind == REFINE) { x.dec.lmax = std::min (x.dec.lmax, 5); if (x.dec.density > 40) x.dec.density = 40; if (b.leaves.size () > 60) x.k[0] = 0; }
    ops.push_back (x); txt += std::string (i ? ", " : "") + oname[x.kind]; label ("%s", oname[x.kind]);
  }
  std::vector<sim::Config> cfg { b.cfg };
  int K = thorough () ? 6 : 3;
  for (int i = 1; i < K; ++i) { sim::Config c = b.cfg; c.policy = (int) draw (sim::N_POLICY); c.buffering = (int) draw (sim::N_BUFFERING); c.lax_collectives = (int) draw (2); c.seed = draw (1 << 30); cfg.push_back (c); }
  describe ("%s; %d processes, %zu leaves, conn %s, schedules", txt.c_str (), b.cfg.P, b.leaves.size (), b.conn.name.c_str ());
  for (auto & c : cfg) describe (" %d/%d/%d", c.policy, c.buffering, c.lax_collectives);
  describe ("; ");
  std::vector<std::vector<u64>> ref;
  bool talk = false;
  for (int s = 0; s < (int) cfg.size (); ++s) {
    MemMark mm = mem_mark (); sim::Report rep; std::vector<std::vector<u64>> logs (b.cfg.P);
    fresh_scratch ();
    sim::run (cfg[s], [&] (int r) {
      Rank R; R.b = &b; R.me = r; R.p = build (b, &R);
      for (auto & x : ops) apply (R, x);
      destroy (R.p);
      logs[r] = R.log;
    }, &rep);
    CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0 && rep.files == 0 && rep.windows == 0 && rep.types == 0, "schedule %d: left behind: %s", s, rep.text ().c_str ());
    mem_check (mm, "after destroying everything");
    talk |= rep.sends > 0;
    if (s == 0) { ref = logs; continue; }
    for (int r = 0; r < b.cfg.P; ++r) for (int i = 0; i < n; ++i)
      CHECK (ref[r][i] == logs[r][i], "process %d: operation %d (%s) gives another result under schedule %d (policy %d, buffering %d, early collectives %d) than under schedule 0 (%d, %d, %d)", r, i, oname[ops[i].kind], s, cfg[s].policy, cfg[s].buffering, cfg[s].lax_collectives, cfg[0].policy, cfg[0].buffering, cfg[0].lax_collectives);
  }
  if (talk) nontrivial ();
}
}
