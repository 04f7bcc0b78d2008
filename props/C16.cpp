/* Corner nodes: which corners are one point, who owns it, who shares it, and what hanging nodes depend on */
#include "ghost_common.h"
#include "entity.h"
#if VDIM == 3
#include <p8est_nodes.h>
#else
#include <p4est_nodes.h>
#endif
namespace DNS {
using namespace eng;
typedef std::pair<int, Pt> Loc;
static Pt corner_of (const Leaf & l, int k) { Pt b = deinterleave (l.key); for (int a = 0; a < DIM; ++a) b.x[a] += ((k >> a) & 1) * qlen (l.level); return b; }
template <typename T> static Pt pos (const T * n) { Pt p; p.x[0] = n->x; p.x[1] = n->y; D3 (p.x[2] = n->z;) return p; }
struct Corner { int hang = 0; Loc at; std::vector<Loc> dep; };    /* hang: codim of the larger entity it lies in, or 0 */
struct NodeModel {
  const Built *b; EntityModel em;
  std::vector<Corner> c;                    /* leaf * NCH + corner */
  std::map<Loc, std::set<int>> refs;        /* independent node: processes that know it */
  bool anyhang = false, shared = false, twice = false;
  void init (const Built & bb) {
    b = &bb; em.init (bb.conn, bb.forest);
    c.resize (em.leaves.size () * NCH);
    for (i64 i = 0; i < (i64) em.leaves.size (); ++i) for (int k = 0; k < NCH; ++k) {
      Corner & x = c[i * NCH + k];
      const GL & g = em.leaves[i];
      x.at = em.canon (g.tree, corner_of (g.l, k));
      Ent e = ent_corner (k);
      int p = owner_of (bb.cuts, i);
      if (!em.hangs (i, e)) { refs[x.at].insert (p); continue; }
      anyhang = true;
      Ent s = EntityModel::smallest (g.l, e);
      x.hang = DIM - s.dim ();
      for (int kk = 0; kk < NCH; ++kk) {
        bool in = true;
        for (int a = 0; a < DIM; ++a) in = in && (s.c[a] == 2 || s.c[a] == ((kk >> a) & 1));
        if (in) x.dep.push_back (em.canon (g.tree, corner_of (g.l.parent (), kk)));
      }
      std::sort (x.dep.begin (), x.dep.end ());
      for (size_t z = 1; z < x.dep.size (); ++z) twice |= x.dep[z] == x.dep[z - 1];
      for (auto & d : x.dep) refs[d].insert (p);
    }
    for (auto & r : refs) shared |= r.second.size () > 1;
  }
};
static std::string str (const Loc & l) { char t[120]; snprintf (t, sizeof t, "t%d (%llx,%llx,%llx)", l.first, (long long) l.second.x[0], (long long) l.second.x[1], (long long) l.second.x[2]); return t; }
/* without a ghost layer: corners in one tree on one process */
static void local_nodes (Built & b) {
  bool balanced = is_balanced (b.forest, DIM);
  label (balanced ? "local numbering, balanced" : "local numbering, unbalanced");
  if (b.leaves.size () > 1) nontrivial ();
  MemMark mm = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    p4est_nodes_t *n = p4est_nodes_new (p, nullptr);
    CHECK (p4est_nodes_is_valid (p, n), "local nodes reported invalid");
    i64 ni = (i64) n->indep_nodes.elem_count, first = b.cuts[me], nloc = b.cuts[me + 1] - first;
    CHECK (n->num_local_quadrants == nloc && n->num_owned_indeps == ni && n->num_owned_shared == 0 && n->offset_owned_indeps == 0 && n->face_hangings.elem_count == 0, "wrong counts of local nodes");
    D3 (CHECK (n->edge_hangings.elem_count == 0, "edge hanging local nodes");)
    CHECK (!n->global_owned_indeps && !n->shared_offsets && n->shared_indeps.elem_count == 0, "local nodes with sharers");
    std::vector<char> used (ni, 0); std::map<Loc, i64> seen;
    for (i64 i = 0; i < nloc; ++i) for (int k = 0; k < NCH; ++k) {
      i64 l = n->local_nodes[i * NCH + k]; const GL & g = b.leaves[first + i];
      CHECK (l >= 0 && l < ni, "local node index %lld out of range", (long long) l);
      used[l] = 1;
      p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&n->indep_nodes, l);
      Loc at { g.tree, corner_of (g.l, k) };
      CHECK (pos (in) == at.second && in->p.piggy3.which_tree == g.tree && in->level == P4EST_MAXLEVEL && in->p.piggy3.local_num == l && in->pad8 == 0,
             "process %d: corner %d of %s has node %lld at %s", me, k, DNS::str (g.tree, g.l).c_str (), (long long) l, str (Loc { (int) in->p.piggy3.which_tree, pos (in) }).c_str ());
      auto r = seen.insert ({ at, l });
      CHECK (!balanced || r.first->second == l, "process %d: two local nodes %lld and %lld at %s", me, (long long) r.first->second, (long long) l, str (at).c_str ());
    }
    for (i64 l = 0; l < ni; ++l) CHECK (used[l], "local node %lld is no corner", (long long) l);
    checks (nloc * NCH + 1);
    p4est_nodes_destroy (n);
    compare (p, b, "after local nodes"); destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mm, "after local nodes");
}
/* two rows of trees of which one process owns all of the first: more shared nodes than a short index can count */
static void wide () {
  int N = (DIM == 3 ? 16384 : 32768) + (int) draw (40) - 4, P = (int) range (2, 4), rows = DIM == 3 ? 4 : 2;
  std::vector<p4est_locidx_t> cnt (P, 0); int rest = N, tail = (int) draw (20);
  cnt[0] = N - (P > 2 ? tail : 0); rest = 2 * N - cnt[0];
  for (int q = 1; q < P - 1; ++q) { cnt[q] = q == 1 && P > 2 ? tail + (int) draw (12) : (int) draw (rest); rest -= cnt[q]; }
  cnt[P - 1] = rest;
  label ("more shared nodes than 16 bits count"); nontrivial ();
  describe ("two rows of %d trees, counts", N); for (auto c : cnt) describe (" %d", (int) c);
  sim::Config cfg = draw_sim (2); cfg.P = P;
#if VDIM == 3
  p8est_connectivity_t *conn = p8est_connectivity_new_brick (N, 1, 2, 0, 0, 0);
#else
  p4est_connectivity_t *conn = p4est_connectivity_new_brick (N, 2, 0, 0);
#endif
  { sc_array_t *pm = sc_array_new_count (sizeof (size_t), (size_t) conn->num_trees);
    for (int t = 0; t < conn->num_trees; ++t) { const double *v = conn->vertices + 3 * conn->tree_to_vertex[NCH * t]; *(size_t *) sc_array_index (pm, t) = (size_t) ((int) v[DIM - 1] * N + (int) v[0]); }
    p4est_connectivity_permute (conn, pm, 1); sc_array_destroy (pm); }
  std::vector<int> own (2 * N); { int t = 0; for (int q = 0; q < P; ++q) for (int i = 0; i < cnt[q]; ++i) own[t++] = q; }
  /* the point: column 0..N, line of points 0..2, and in three dimensions the other axis */
  auto refs = [&] (int i, int j) { std::set<int> r; for (int di = -1; di <= 0; ++di) for (int dj = -1; dj <= 0; ++dj) if (i + di >= 0 && i + di < N && j + dj >= 0 && j + dj < 2) r.insert (own[(j + dj) * N + i + di]); return r; };
  (void) rows;
  typedef std::array<int, 3> Key; std::map<Key, std::pair<int, int>> gid;
  sim::Report rep;
  sim::run (cfg, [&] (int me) {
    p4est_t *p = p4est_new_ext (MPI_COMM_WORLD, conn, 0, 0, 1, 0, nullptr, nullptr);
    p4est_partition_given (p, cnt.data ());
    p4est_ghost_t *g = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    p4est_nodes_t *n = p4est_nodes_new (p, g);
    i64 ni = (i64) n->indep_nodes.elem_count; int low = n->offset_owned_indeps, high = low + n->num_owned_indeps;
    CHECK (n->num_local_quadrants == cnt[me] && n->face_hangings.elem_count == 0, "process %d: wrong counts", me);
    std::vector<char> used (ni, 0); i64 first = 0; for (int q = 0; q < me; ++q) first += cnt[q];
    for (i64 z = 0; z < cnt[me]; ++z) for (int k = 0; k < NCH; ++k) {
      i64 l = n->local_nodes[z * NCH + k]; CHECK (l >= 0 && l < ni, "process %d: node %lld of %lld", me, (long long) l, (long long) ni);
      int i = (int) ((first + z) % N) + (k & 1), j = (int) ((first + z) / N) + ((k >> (DIM - 1)) & 1), h = DIM == 3 ? (k >> 1) & 1 : 0;
      p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&n->indep_nodes, l);
      auto r = refs (i, j); int owner = -1;
      /* the owner holds the tree with the lowest number that touches the point */
      for (int dj = -1; dj <= 0 && owner < 0; ++dj) for (int di = -1; di <= 0 && owner < 0; ++di) if (i + di >= 0 && i + di < N && j + dj >= 0 && j + dj < 2) owner = own[(j + dj) * N + i + di];
      CHECK ((owner == me) == (l >= low && l < high), "process %d: node %lld at column %d line %d belongs to %d", me, (long long) l, i, j, owner);
      std::pair<int, int> id (owner, (int) in->p.piggy3.local_num);
      auto ins = gid.insert ({ Key { i, j, h }, id });
      CHECK (ins.first->second == id, "process %d: the point at column %d line %d is node %d of %d, elsewhere %d of %d", me, i, j, id.second, id.first, ins.first->second.second, ins.first->second.first);
      if (used[l]) continue;
      used[l] = 1; r.erase (me);
      CHECK (in->pad8 == (int) r.size (), "process %d: node at column %d line %d has %d sharers, expected %zu", me, i, j, in->pad8, r.size ());
      if (in->pad8 == 0) continue;
      i64 o = n->shared_offsets ? n->shared_offsets[l] : in->pad16;
      sc_recycle_array_t *ra = (sc_recycle_array_t *) sc_array_index (&n->shared_indeps, in->pad8 - 1);
      CHECK (o >= 0 && o < (i64) ra->a.elem_count && ra->a.elem_size == in->pad8 * sizeof (int), "process %d: sharer list of node %lld at %lld", me, (long long) l, (long long) o);
      int *s = (int *) sc_array_index (&ra->a, o);
      CHECK ((std::set<int> (s, s + in->pad8) == r), "process %d: node at column %d line %d has wrong sharers", me, i, j);
    }
    for (i64 l = 0; l < ni; ++l) CHECK (used[l], "process %d: node %lld is no corner", me, (long long) l);
    checks (ni);
    CHECK (p4est_nodes_is_valid (p, n), "nodes reported invalid");
    p4est_nodes_destroy (n); p4est_ghost_destroy (g); p4est_destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  CHECK (gid.size () == (size_t) (N + 1) * 3 * (DIM == 3 ? 2 : 1), "%zu points numbered", gid.size ());
  p4est_connectivity_destroy (conn);
}
/* p4est_nodes_is_valid notices damaged tables, and everyone learns of it */
static void damaged (const Built & b) {
  int P = b.cfg.P, bad = (int) draw (P), kind = (int) draw (9), var = (int) draw (4); u64 wh = draw (1 << 20);
  static const char *name[] = { "leaf count", "node off the grid", "tree of a node", "number of sharers", "number of an own node", "number of a foreign node", "owner of a foreign node", "list of sharers", "hanging node off the grid" };
  std::vector<int> did (1, 0);
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    p4est_ghost_t *g = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    p4est_nodes_t *n = p4est_nodes_new (p, g);
    i64 ni = (i64) n->indep_nodes.elem_count; int low = n->offset_owned_indeps, high = low + n->num_owned_indeps;
    if (me == bad) {
      auto indep = [&] (i64 i) { return (p4est_indep_t *) sc_array_index (&n->indep_nodes, (size_t) i); };
      auto flip = [&] (auto *q) { p4est_qcoord_t *x = var % DIM == 0 ? &q->x : &q->y; D3 (if (var % DIM == 2) x = &q->z;) *x ^= 1; };
      i64 i = ni ? (i64) (wh % (u64) ni) : -1; did[0] = 1;
      switch (kind) {
      case 0: n->num_local_quadrants += var & 1 ? 1 : -1; break;
      case 1: if (i >= 0) flip (indep (i)); else did[0] = 0; break;
      case 2: if (i < 0) did[0] = 0; else if (var & 1 || indep (i)->p.piggy3.which_tree == 0) indep (i)->p.piggy3.which_tree = b.conn.nt; else indep (i)->p.piggy3.which_tree = -1; break;
      case 3: if (i < 0) did[0] = 0; else indep (i)->pad8 = var & 1 || n->shared_indeps.elem_count >= 127 ? -1 : (int8_t) (n->shared_indeps.elem_count + 1); break;
      case 4: if (high == low) did[0] = 0; else { p4est_indep_t *in = indep (low + (i64) (wh % (u64) (high - low))); in->p.piggy3.local_num += var & 1 ? 1 : -1; } break;
      case 5: if (ni == high - low) did[0] = 0; else { i64 k = (i64) (wh % (u64) (ni - (high - low))); p4est_indep_t *in = indep (k < low ? k : k + (high - low)); in->p.piggy3.local_num = var & 1 ? -1 : n->global_owned_indeps[n->nonlocal_ranks[k]]; } break;
      case 6: if (ni == high - low) did[0] = 0; else { i64 k = (i64) (wh % (u64) (ni - (high - low))); n->nonlocal_ranks[k] = var == 0 ? me : var == 1 ? P : var == 2 ? -1 : P + 7; } break;
      case 7: { std::vector<std::pair<int *, int>> all; for (size_t z = 0; z < n->shared_indeps.elem_count; ++z) { sc_recycle_array_t *ra = (sc_recycle_array_t *) sc_array_index (&n->shared_indeps, z); for (size_t y = 0; y < ra->a.elem_count; ++y) all.push_back ({ (int *) sc_array_index (&ra->a, y), (int) z + 1 }); }
        if (all.empty ()) did[0] = 0; else { auto e = all[wh % all.size ()]; int at = (int) (wh / 7 % (u64) e.second); e.first[at] = var == 0 ? me : var == 1 ? P : var == 2 ? -1 : e.second > 1 ? e.first[(at + 1) % e.second] : me; } break; }
      default: {
#if VDIM == 2
        if (n->face_hangings.elem_count) flip ((p4est_hang2_t *) sc_array_index (&n->face_hangings, wh % n->face_hangings.elem_count)); else did[0] = 0;
#else
        if ((var & 1 || !n->edge_hangings.elem_count) && n->face_hangings.elem_count) flip ((p8est_hang4_t *) sc_array_index (&n->face_hangings, wh % n->face_hangings.elem_count));
        else if (n->edge_hangings.elem_count) flip ((p8est_hang2_t *) sc_array_index (&n->edge_hangings, wh % n->edge_hangings.elem_count)); else did[0] = 0;
#endif
      } }
    }
    sim::host_barrier ();
    int v = p4est_nodes_is_valid (p, n);
    CHECK (!!v == !did[0], "process %d: p4est_nodes_is_valid is %d, damaged on process %d: %s", me, v, bad, did[0] ? name[kind] : "nothing");
    sim::host_barrier ();
    p4est_nodes_destroy (n); p4est_ghost_destroy (g); destroy (p);
  });
  if (did[0]) { label ("damaged: %s", name[kind]); nontrivial (); }
}
void prop () {
  if (!asan () && draw (thorough () ? 150 : 500) == (thorough () ? 149 : 499)) { wide (); return; }
  Built b; BuildOpts o; o.maxleaves = thorough () ? 500 : DIM == 3 ? 150 : 200;
  bool local = chance (15);
  if (local) o.balance_any = true; else o.balance_codim = DIM;
  o.wide = 100;
  draw_built (b, o);
  if (local) { local_nodes (b); return; }
  if (chance (8)) { damaged (b); return; }
  NodeModel m; m.init (b);
  if (m.anyhang || m.shared) nontrivial ();
  label (m.anyhang ? "hanging nodes" : "conforming");
  if (m.shared) label ("shared nodes");
  if (m.twice) label ("hanging node between two images of one node");
  describe ("%zu nodes; ", m.refs.size ());
  int P = b.cfg.P;
  std::map<Loc, std::pair<int, int>> gid;             /* point: owner, number */
  std::map<std::pair<int, int>, Loc> at;
  std::vector<int> owned (P, 0);
  bool twiceghost = draw (2);
  MemMark mm = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    p4est_ghost_t *g = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    p4est_nodes_t *n = p4est_nodes_new (p, g);
    if (twiceghost) { GhostModel gm; gm.init (b, DIM); check_ghost (g, gm, false, "ghost layer after nodes"); }
    CHECK (p4est_nodes_is_valid (p, n), "nodes reported invalid");
    i64 ni = (i64) n->indep_nodes.elem_count, fi = (i64) n->face_hangings.elem_count, ei = 0, first = b.cuts[me], nloc = b.cuts[me + 1] - first;
    D3 (ei = (i64) n->edge_hangings.elem_count;)
    CHECK (n->num_local_quadrants == nloc, "wrong leaf count");
    /* independent nodes */
    std::map<Loc, i64> mine; std::vector<Loc> loc (ni); int low = n->offset_owned_indeps, high = low + n->num_owned_indeps, nshared = 0, nl = 0, prev = -1;
    CHECK (0 <= low && low <= high && high <= ni, "process %d: owned nodes %d to %d of %lld", me, low, high, (long long) ni);
    for (i64 l = 0; l < ni; ++l) {
      p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&n->indep_nodes, l);
      int t = in->p.piggy3.which_tree; Pt x = pos (in);
      CHECK (t >= 0 && t < b.conn.nt && in->level == P4EST_MAXLEVEL, "node %lld in tree %d", (long long) l, t);
      for (int a = 0; a < DIM; ++a) CHECK (x.x[a] >= 0 && x.x[a] <= RL, "node %lld outside its tree", (long long) l);
      loc[l] = m.em.canon (t, x);
      CHECK (loc[l].first == t, "process %d: node %lld at %s is not stored in the lowest tree %d", me, (long long) l, str (Loc { t, x }).c_str (), loc[l].first);
      CHECK (mine.insert ({ loc[l], l }).second, "process %d: nodes %lld and %lld are the same point %s", me, (long long) mine[loc[l]], (long long) l, str (loc[l]).c_str ());
      auto r = m.refs.find (loc[l]);
      CHECK (r != m.refs.end () && r->second.count (me), "process %d stores the point %s that none of its leaves needs", me, str (loc[l]).c_str ());
      Pt cl = x; for (int a = 0; a < DIM; ++a) if (cl.x[a] == RL) cl.x[a] -= 1;
      int owner = owner_of (b.cuts, m.em.off[t] + b.forest.find (t, interleave (cl.x)));
      CHECK (owner >= prev, "process %d: nodes not ordered by owner", me); prev = owner;
      CHECK ((owner == me) == (l >= low && l < high), "process %d: node %lld at %s belongs to process %d, own nodes are %d to %d", me, (long long) l, str (loc[l]).c_str (), owner, low, high);
      if (owner == me) CHECK (in->p.piggy3.local_num == l - low, "process %d: own node %lld is number %d", me, (long long) l, in->p.piggy3.local_num);
      else { CHECK (n->nonlocal_ranks[nl] == owner, "process %d: node %lld of process %d has rank %d", me, (long long) l, owner, n->nonlocal_ranks[nl]); ++nl; }
      if (l > 0) {
        p4est_indep_t *pr = (p4est_indep_t *) sc_array_index (&n->indep_nodes, l - 1);
        CHECK (pr->p.piggy3.which_tree <= t, "process %d: nodes not ordered by tree", me);
        if (pr->p.piggy3.which_tree == t) {
          Pt y = pos (pr); for (int a = 0; a < DIM; ++a) if (y.x[a] == RL) y.x[a] -= 1;
          CHECK (interleave (y.x) < interleave (cl.x), "process %d: nodes %lld and %lld not in Morton order", me, (long long) l - 1, (long long) l);
        }
      }
      /* the same number for everyone, and not for another point */
      auto id = std::make_pair (owner, (int) in->p.piggy3.local_num);
      auto q = gid.insert ({ loc[l], id });
      CHECK (q.first->second == id, "process %d: the point %s is node %d of process %d, elsewhere node %d of process %d", me, str (loc[l]).c_str (), id.second, id.first, q.first->second.second, q.first->second.first);
      auto w = at.insert ({ id, loc[l] });
      CHECK (w.first->second == loc[l], "process %d: node %d of process %d is both %s and %s", me, id.second, id.first, str (loc[l]).c_str (), str (w.first->second).c_str ());
      /* sharers */
      std::set<int> want = r->second; want.erase (me);
      CHECK (in->pad8 == (int) want.size (), "process %d: node at %s has %d sharers, expected %zu", me, str (loc[l]).c_str (), in->pad8, want.size ());
      if (owner == me && in->pad8) ++nshared;
      if (in->pad8) {
        i64 o = n->shared_offsets ? n->shared_offsets[l] : in->pad16;
        CHECK ((size_t) in->pad8 <= n->shared_indeps.elem_count, "process %d: no sharer list of this length", me);
        sc_recycle_array_t *ra = (sc_recycle_array_t *) sc_array_index (&n->shared_indeps, in->pad8 - 1);
        CHECK (o >= 0 && o < (i64) ra->a.elem_count && ra->a.elem_size == in->pad8 * sizeof (int), "process %d: sharer list of node %lld at %lld", me, (long long) l, (long long) o);
        int *s = (int *) sc_array_index (&ra->a, o);
        std::set<int> have (s, s + in->pad8);
        CHECK (have == want, "process %d: node at %s has wrong sharers", me, str (loc[l]).c_str ());
      }
    }
    CHECK (nshared == n->num_owned_shared, "process %d: %d own nodes shared, reported %d", me, nshared, n->num_owned_shared);
    i64 need = 0; for (auto & r : m.refs) need += r.second.count (me);
    CHECK (need == ni, "process %d stores %lld nodes, needs %lld", me, (long long) ni, (long long) need);
    owned[me] = n->num_owned_indeps;
    /* corners of leaves */
    std::vector<char> fu (fi, 0), eu (ei, 0);
    for (i64 i = 0; i < nloc; ++i) for (int k = 0; k < NCH; ++k) {
      const Corner & c = m.c[(first + i) * NCH + k];
      i64 l = n->local_nodes[i * NCH + k];
      std::string who = "process " + std::to_string (me) + ": corner " + std::to_string (k) + " of " + DNS::str (b.leaves[first + i].tree, b.leaves[first + i].l);
      CHECK (l >= 0 && l < ni + fi + ei, "%s: index %lld out of range", who.c_str (), (long long) l);
      int kind = l < ni ? 0 : l < ni + fi ? 1 : 2;
      CHECK (kind == c.hang, "%s has a node of type %d, expected %d", who.c_str (), kind, c.hang);
      if (kind == 0) { CHECK (loc[l] == c.at, "%s has the node at %s, expected %s", who.c_str (), str (loc[l]).c_str (), str (c.at).c_str ()); continue; }
      Loc hl; int nd; const p4est_locidx_t *dep; int lev;
#if VDIM == 2
      p4est_hang2_t *h = (p4est_hang2_t *) sc_array_index (&n->face_hangings, l - ni);
      hl = Loc { (int) h->p.piggy.which_tree, pos (h) }; nd = 2; dep = h->p.piggy.depends; lev = h->level; fu[l - ni] = 1;
#else
      if (kind == 1) { p8est_hang4_t *h = (p8est_hang4_t *) sc_array_index (&n->face_hangings, l - ni); hl = Loc { (int) h->p.piggy.which_tree, pos (h) }; nd = 4; dep = h->p.piggy.depends; lev = h->level; fu[l - ni] = 1; }
      else { p8est_hang2_t *h = (p8est_hang2_t *) sc_array_index (&n->edge_hangings, l - ni - fi); hl = Loc { (int) h->p.piggy.which_tree, pos (h) }; nd = 2; dep = h->p.piggy.depends; lev = h->level; eu[l - ni - fi] = 1; }
#endif
      Loc hc = m.em.canon (hl.first, hl.second);
      CHECK (lev == P4EST_MAXLEVEL && hl.first == hc.first && hc == c.at, "%s has the hanging node at %s, expected %s", who.c_str (), str (hl).c_str (), str (c.at).c_str ());
      std::vector<Loc> d;
      for (int z = 0; z < nd; ++z) { CHECK (dep[z] >= 0 && dep[z] < ni, "%s depends on node %d", who.c_str (), dep[z]); CHECK (z == 0 || dep[z - 1] <= dep[z], "%s: unsorted", who.c_str ()); d.push_back (loc[dep[z]]); }
      std::sort (d.begin (), d.end ());
      CHECK (d == c.dep, "%s hangs at %s on the wrong nodes", who.c_str (), str (c.at).c_str ());
    }
    for (char u : fu) CHECK (u, "process %d: unused face hanging node", me);
    for (char u : eu) CHECK (u, "process %d: unused edge hanging node", me);
    std::set<Loc> uniq;
    for (i64 z = 0; z < fi; ++z) {
#if VDIM == 2
      p4est_hang2_t *h = (p4est_hang2_t *) sc_array_index (&n->face_hangings, z);
#else
      p8est_hang4_t *h = (p8est_hang4_t *) sc_array_index (&n->face_hangings, z);
#endif
      CHECK (uniq.insert (m.em.canon ((int) h->p.piggy.which_tree, pos (h))).second, "process %d: hanging node stored twice", me);
    }
    D3 (for (i64 z = 0; z < ei; ++z) { p8est_hang2_t *h = (p8est_hang2_t *) sc_array_index (&n->edge_hangings, z); CHECK (uniq.insert (m.em.canon ((int) h->p.piggy.which_tree, pos (h))).second, "process %d: hanging node stored twice", me); })
    checks (ni + nloc * NCH);
    sim::host_barrier ();
    for (int q = 0; q < P; ++q) CHECK (n->global_owned_indeps[q] == owned[q], "process %d: process %d owns %d nodes, said to own %d", me, q, owned[q], n->global_owned_indeps[q]);
    p4est_nodes_destroy (n); p4est_ghost_destroy (g);
    compare (p, b, "after nodes"); destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  i64 total = 0; for (int x : owned) total += x;
  CHECK (total == (i64) m.refs.size (), "%lld nodes in total, expected %zu", (long long) total, m.refs.size ());
  mem_check (mm, "after destroying the nodes");
}
}
