/* Global nodes: numbering, hanging rule, ownership, sharing, and what is built on them */
#include "ghost_common.h"
#include "entity.h"
#include "history.h"
#if VDIM == 3
#include <p8est_lnodes.h>
#else
#include <p4est_lnodes.h>
#endif
namespace DNS {
using namespace eng;
struct Model {
  const Built *b; EntityModel em; int degree, vnodes;
  std::vector<std::vector<int>> id;     /* leaf, node: model node */
  std::vector<int> owner;               /* per model node */
  std::vector<std::set<int>> ownok;     /* where the lowest tree meets the node more than once: see known_findings.json */
  std::vector<std::set<int>> refs;      /* per process: nodes referred to by its leaves */
  std::vector<std::vector<i64>> supp;   /* per node: leaves */
  bool anyhang = false;
  std::map<std::pair<int, Pt>, int> ids;
  int get (i64 i, const Ent & e, const int *num) {      /* num: tensor index 0..N per axis, or null for the entity center */
    const GL & g = em.leaves[i];
    bool h = em.hangs (i, e); anyhang |= h;
    Leaf l = h ? g.l.parent () : g.l;
    Pt c = EntityModel::center (l, e), k = c; i64 N = 1;
    if (num) { N = degree; k = deinterleave (l.key); i64 len = qlen (l.level); for (int a = 0; a < DIM; ++a) k.x[a] = k.x[a] * N + num[a] * len; }
    std::pair<int, Pt> key { g.tree, k };
    bool in = EntityModel::interior (c);
    if (!in) key = b->conn.point_class (g.tree, k, N * RL).front ();
    auto r = ids.insert ({ key, (int) owner.size () });
    if (r.second) { owner.push_back (owner_of (b->cuts, em.touching (g.tree, c).front ())); ownok.push_back ({ owner.back () }); supp.emplace_back (); self_contacts (g.tree, c); }
    supp[r.first->second].push_back (i);
    return r.first->second;
  }
  void self_contacts (int tree, const Pt & c) {
    auto cl = b->conn.point_class (tree, c);
    for (auto & r : cl) {
      if (r.first != cl.front ().first) break;
      i64 low = -1;
      for (int k = 0; k < NCH; ++k) {
        Pt q = r.second; bool in = true;
        for (int a = 0; a < DIM; ++a) { q.x[a] -= (k >> a) & 1; in = in && q.x[a] >= 0 && q.x[a] < RL; }
        if (!in) continue;
        i64 l = em.off[r.first] + em.f->find (r.first, interleave (q.x));
        if (low < 0 || l < low) low = l;
      }
      ownok.back ().insert (owner_of (b->cuts, low));
    }
  }
  void init (const Built & bb, int deg) {
    b = &bb; degree = deg; em.init (bb.conn, bb.forest);
    id.resize (em.leaves.size ()); refs.assign (bb.cfg.P, {});
    for (i64 i = 0; i < (i64) id.size (); ++i) {
      auto & v = id[i];
      if (degree > 0) {
        int n[3], N = degree;
        for (n[2] = 0; n[2] <= (DIM == 3 ? N : 0); ++n[2]) for (n[1] = 0; n[1] <= N; ++n[1]) for (n[0] = 0; n[0] <= N; ++n[0]) {
          Ent e; for (int a = 0; a < DIM; ++a) e.c[a] = n[a] == 0 ? 0 : n[a] == N ? 1 : 2;
          v.push_back (get (i, e, n));
        }
      }
      else {
        for (int f = 0; f < NF; ++f) v.push_back (get (i, ent_face (f), nullptr));
        if (DIM == 3 && degree <= -2) for (int e = 0; e < 12; ++e) v.push_back (get (i, ent_edge (e), nullptr));
        if (degree == -DIM) for (int k = 0; k < NCH; ++k) v.push_back (get (i, ent_corner (k), nullptr));
      }
      int p = owner_of (bb.cuts, i);
      refs[p].insert (v.begin (), v.end ());
    }
    vnodes = (int) id[0].size ();
    for (auto & s : supp) { std::sort (s.begin (), s.end ()); s.erase (std::unique (s.begin (), s.end ()), s.end ()); }
  }
  /* the hanging description documented for the decode function */
  bool decode (i64 i, int *hf, int *he) {
    const GL & g = em.leaves[i]; bool any = false; int c = g.l.childid ();
    for (int f = 0; f < NF; ++f) { hf[f] = -1; if (em.hangs (i, ent_face (f))) { any = true; for (int k = 0; k < HALF; ++k) if (face_corner (f, k) == c) hf[f] = k; } }
    if (DIM == 3) for (int e = 0; e < 12; ++e) {
      he[e] = -1; Ent ee = ent_edge (e);
      if (!em.hangs (i, ee)) continue;
      any = true;
      int half = (c >> (e / 4)) & 1, nf = 0; bool atc = true;
      for (int a = 0; a < 3; ++a) if (ee.c[a] < 2) { int f = 2 * a + ee.c[a]; nf += hf[f] >= 0; atc = atc && ee.c[a] == ((c >> a) & 1); }
      he[e] = !atc ? 4 : nf ? 2 + half : half;
    }
    return any;
  }
};
/* how many nodes belong to each leaf: the first of the leaves at the entity; per dimension of the entity; false where that is ambiguous */
static bool node_weights (Model & m, const int *per, std::vector<i64> & w) {
  std::set<std::pair<int, std::pair<int, Pt>>> seen; auto & em = m.em; w.assign (em.leaves.size (), per[DIM]);
  for (i64 i = 0; i < (i64) em.leaves.size (); ++i) for (int x = 0; x < NENT; ++x) {
    Ent e = ent_of (x); int d = e.dim (); if (d == DIM) continue;
    const GL & g = em.leaves[i]; bool h = em.hangs (i, e); Ent s = h ? EntityModel::smallest (g.l, e) : e;
    if (h && s.dim () > d) continue;
    Pt c = EntityModel::center (h ? g.l.parent () : g.l, s); auto k = em.canon (g.tree, c);
    if (!seen.insert ({ d, k }).second) continue;
    if (!EntityModel::interior (c)) { auto cl = m.b->conn.point_class (g.tree, c); if (cl.size () > 1 && cl[1].first == cl[0].first) return false; }
    w[em.touching (g.tree, c).front ()] += per[d];
  }
  return true;
}
void prop () {
  Built b; BuildOpts o; o.balance_codim = DIM; o.maxleaves = thorough () ? 500 : DIM == 3 ? 130 : 160;
  o.wide = 140;
  draw_built (b, o);
  static const int deg2[] = { 1, 2, 3, -1, -2, 4, 6 }, deg3[] = { 1, 2, 3, -1, -2, -3, 4 };
  int degree = (DIM == 2 ? deg2 : deg3)[weighted ({ 20, 20, 20, 12, 12, 10, 6 })];
  if (b.wide && degree > 2) degree = 2;
  Model m; m.init (b, degree);
  int nexp = b.wide ? 0 : weighted ({ 55, 20, 15, 10 }), keep = (int) draw (2), esize = (int[]) { 8, 1, 4, 24 } [draw (4)];
  bool combined = draw (2), pown = chance (25), pfc = draw (2), detailed = draw (2), pghost = draw (2);
  int nw[4] = { range (0, 3), range (0, 3), range (0, 3), range (0, 3) };
  u64 seed = draw (1 << 20);
  std::vector<int> nref (m.owner.size (), 0);
  bool shared = false;
  for (auto & r : m.refs) for (int i : r) shared |= ++nref[i] > 1;
  if (m.anyhang || shared) nontrivial ();
  label (m.anyhang ? "hanging nodes" : "conforming");
  label ("degree %d", degree);
  if (shared) label ("shared nodes");
  describe ("degree %d, %zu nodes, %d expansions; ", degree, m.owner.size (), nexp);
  int P = b.cfg.P;
  /* nodes on faces only, or on faces and edges: expansion by nodes needs a ghost layer of the same kind (see known_findings.json) */
  int gcd = degree == -1 ? 1 : degree == -2 ? 2 : DIM;
  std::vector<i64> gnum (m.owner.size (), -1), offs (P, 0), cnt (P, 0);
  std::map<i64, int> back;
  bool exact = false; Cuts want = b.cuts;
  if (pown) {
    int per[4] = { 0, 0, 0, 0 };
    if (detailed || degree < 1) { per[DIM] = nw[0]; per[DIM - 1] = nw[1]; if (DIM == 3) per[1] = nw[2]; per[0] = nw[3]; }
    else for (int d = 0, n = 1; d <= DIM; ++d, n *= degree - 1) per[d] = n;
    std::vector<i64> w; exact = node_weights (m, per, w); i64 sum = 0, mv; for (i64 x : w) sum += x;
    if (P > 1 && sum) { want = weighted_cuts (w, P); if (pfc) want = family_cuts (b.forest, want, &mv); }
    label (exact ? "partition by nodes" : "partition by nodes, ambiguous");
  }
  MemMark mm = mem_mark ();
  sim::Report rep;
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    p4est_ghost_t *g = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    p4est_lnodes_t *ln = p4est_lnodes_new (p, g, degree);
    GhostModel gm; gm.init (b, DIM);
    check_ghost (g, gm, false, "ghost layer after lnodes");
    i64 nloc = b.cuts[me + 1] - b.cuts[me], first = b.cuts[me];
    CHECK (ln->degree == degree && ln->vnodes == m.vnodes && ln->num_local_elements == nloc, "wrong header");
    CHECK (ln->num_local_nodes == (i64) m.refs[me].size (), "process %d knows %d nodes, expected %zu", me, ln->num_local_nodes, m.refs[me].size ());
    cnt[me] = ln->owned_count;
    sim::host_barrier ();
    for (int p = 1; p < P; ++p) offs[p] = offs[p - 1] + cnt[p - 1];
    CHECK (offs[P - 1] + cnt[P - 1] == (i64) m.owner.size (), "%lld nodes in total, expected %zu", (long long) (offs[P - 1] + cnt[P - 1]), m.owner.size ());
    CHECK (ln->owned_count == cnt[me] && ln->global_offset == offs[me], "process %d owns %d nodes from %lld, expected %lld from %lld", me, ln->owned_count, (long long) ln->global_offset, (long long) cnt[me], (long long) offs[me]);
    for (int q = 0; q < P; ++q) CHECK (ln->global_owned_count[q] == cnt[q], "process %d: owned count of process %d is %d, expected %lld", me, q, ln->global_owned_count[q], (long long) cnt[q]);
    for (i64 k = 0; k + ln->owned_count < ln->num_local_nodes; ++k) {
      CHECK (ln->nonlocal_nodes[k] >= 0 && ln->nonlocal_nodes[k] < offs[P - 1] + cnt[P - 1] && (ln->nonlocal_nodes[k] < offs[me] || ln->nonlocal_nodes[k] >= offs[me] + cnt[me]), "process %d: nonlocal node %lld out of range", me, (long long) ln->nonlocal_nodes[k]);
      CHECK (k == 0 || ln->nonlocal_nodes[k - 1] < ln->nonlocal_nodes[k], "process %d: nonlocal nodes are not ascending", me);
    }
    std::vector<int> loc (ln->num_local_nodes, -1);
    for (i64 i = 0; i < nloc; ++i)
      for (int k = 0; k < m.vnodes; ++k) {
        int l = ln->element_nodes[i * m.vnodes + k], id = m.id[first + i][k];
        const GL & gl = b.leaves[first + i];
        CHECK (l >= 0 && l < ln->num_local_nodes, "process %d: node %d of %s has local number %d of %d", me, k, str (gl.tree, gl.l).c_str (), l, ln->num_local_nodes);
        CHECK (loc[l] < 0 || loc[l] == id, "process %d: node %d of %s shares its local number with a different position", me, k, str (gl.tree, gl.l).c_str ());
        loc[l] = id;
        i64 G = p4est_lnodes_global_index (ln, l);
        CHECK (gnum[id] < 0 || gnum[id] == G, "process %d: node %d of %s has global number %lld, another element has %lld at the same position", me, k, str (gl.tree, gl.l).c_str (), (long long) G, (long long) gnum[id]);
        auto r = back.insert ({ G, id });
        CHECK (r.first->second == id, "process %d: node %d of %s has the global number %lld of a different position", me, k, str (gl.tree, gl.l).c_str (), (long long) G);
        gnum[id] = G;
        int ow = (int) (std::upper_bound (offs.begin (), offs.end (), G) - offs.begin ()) - 1;
        CHECK (m.ownok[id].count (ow), "process %d: node %d of %s has global number %lld of process %d, but its owner is process %d", me, k, str (gl.tree, gl.l).c_str (), (long long) G, ow, m.owner[id]);
        m.owner[id] = ow;
        CHECK (G >= offs[ow] && G < offs[ow] + cnt[ow], "process %d: node %d of %s has global number %lld, but its owner is process %d", me, k, str (gl.tree, gl.l).c_str (), (long long) G, ow);
        eng::checks ();
      }
    for (size_t l = 0; l < loc.size (); ++l) CHECK (loc[l] >= 0, "process %d: local node %zu belongs to no element", me, l);
    /* hanging description */
    if (DIM == 2 || degree != -1)
      for (i64 i = 0; i < nloc; ++i) {
        int hf[6], he[12], gf[6], ge[12]; bool any = m.decode (first + i, hf, he);
        memset (gf, -1, sizeof gf); memset (ge, -1, sizeof ge);
#if VDIM == 3
        int r = p8est_lnodes_decode (ln->face_code[i], gf, ge);
#else
        int r = p4est_lnodes_decode (ln->face_code[i], gf);
#endif
        const GL & gl = b.leaves[first + i];
        CHECK (!!r == any, "process %d: %s has face code %x, expected %s", me, str (gl.tree, gl.l).c_str (), ln->face_code[i], any ? "hanging" : "none");
        if (any) for (int f = 0; f < NF; ++f) CHECK (hf[f] == gf[f], "process %d: %s face %d hanging state %d, expected %d", me, str (gl.tree, gl.l).c_str (), f, gf[f], hf[f]);
        if (any) for (int e = 0; e < NE; ++e) CHECK (he[e] == ge[e], "process %d: %s edge %d hanging state %d, expected %d", me, str (gl.tree, gl.l).c_str (), e, ge[e], he[e]);
      }
    sim::host_barrier ();
    /* sharers */
    std::map<int, std::vector<int>> share;      /* rank: local numbers */
    for (int l = 0; l < (int) loc.size (); ++l) { bool any = false; for (int q = 0; q < P; ++q) if (q != me && m.refs[q].count (loc[l])) { share[q].push_back (l); any = true; } if (any) share[me].push_back (l); }
    for (auto & s : share) std::sort (s.second.begin (), s.second.end (), [&] (int x, int y) { return gnum[loc[x]] < gnum[loc[y]]; });
    CHECK (ln->sharers->elem_count == share.size (), "process %d has %zu sharers, expected %zu", me, ln->sharers->elem_count, share.size ());
    size_t z = 0;
    for (auto & s : share) {
      p4est_lnodes_rank_t *lr = p4est_lnodes_rank_array_index (ln->sharers, z++);
      CHECK (lr->rank == s.first, "process %d: sharer %d, expected %d", me, lr->rank, s.first);
      if (lr->shared_nodes.elem_count != s.second.size ()) { std::string d; for (size_t k = 0; k < lr->shared_nodes.elem_count; ++k) { int l = *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, k); d += " " + std::to_string (l) + "/" + std::to_string (loc[l]); }
        d += " expected"; for (int l : s.second) d += " " + std::to_string (l) + "/" + std::to_string (loc[l]);
        eng::describe ("shared nodes (local/position):%s; ", d.c_str ()); }
      CHECK (lr->shared_nodes.elem_count == s.second.size (), "process %d shares %zu nodes with process %d, expected %zu", me, lr->shared_nodes.elem_count, s.first, s.second.size ());
      int mo = -1, mc = 0;
      for (size_t k = 0; k < s.second.size (); ++k) {
        int l = *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, k);
        CHECK (l == s.second[k], "process %d: node %zu shared with process %d is %d, expected %d", me, k, s.first, l, s.second[k]);
        if (l < ln->owned_count) { if (!mc++) mo = (int) k; }
      }
      CHECK (lr->shared_mine_count == mc && (mc == 0 || lr->shared_mine_offset == mo), "process %d: own shared section for process %d is %d+%d, expected %d+%d", me, s.first, lr->shared_mine_offset, lr->shared_mine_count, mo, mc);
      int oo = -1, oc = 0;
      if (s.first == me) { oo = 0; oc = ln->owned_count; }
      else for (int l = 0; l < (int) loc.size (); ++l) if (m.owner[loc[l]] == s.first) if (!oc++) oo = l;
      CHECK (lr->owned_count == oc && (oc == 0 || lr->owned_offset == oo), "process %d: section owned by process %d is %d+%d, expected %d+%d", me, s.first, lr->owned_offset, lr->owned_count, oo, oc);
    }
    /* sharing values */
    sc_array_t *data = sc_array_new_size ((size_t) esize, ln->num_local_nodes);
    auto tag = [&] (int rank, int id) { return mix (seed, (u64) rank, (u64) id); };
    auto fill = [&] () { for (int l = 0; l < (int) loc.size (); ++l) fill_bytes (sc_array_index (data, l), (size_t) esize, tag (me, loc[l])); };
    auto share_all_check = [&] (p4est_lnodes_buffer_t * bf) {
      CHECK (bf->recv_buffers->elem_count == share.size (), "wrong number of receive buffers");
      size_t j = 0;
      for (auto & s : share) {
        sc_array_t *a = (sc_array_t *) sc_array_index (bf->recv_buffers, j++);
        if (s.first == me) { CHECK (a->elem_count == 0, "receive buffer from itself"); continue; }
        CHECK (a->elem_count == s.second.size () && a->elem_size == (size_t) esize, "process %d: receive buffer from process %d has %zu entries", me, s.first, a->elem_count);
        for (size_t k = 0; k < s.second.size (); ++k)
          CHECK (check_bytes (sc_array_index (a, k), (size_t) esize, tag (s.first, loc[s.second[k]])), "process %d: wrong value of shared node %zu from process %d", me, k, s.first);
      }
      for (int l = 0; l < (int) loc.size (); ++l) CHECK (check_bytes (sc_array_index (data, l), (size_t) esize, tag (me, loc[l])), "process %d: share_all changed the node data", me);
    };
    auto owned_check = [&] () {
      for (int l = 0; l < (int) loc.size (); ++l) CHECK (check_bytes (sc_array_index (data, l), (size_t) esize, tag (m.owner[loc[l]], loc[l])), "process %d: value of local node %d is not that of its owner %d", me, l, m.owner[loc[l]]);
    };
    fill ();
    p4est_lnodes_buffer_t *ba, *bo = nullptr;
    if (combined) { ba = p4est_lnodes_share_all (data, ln); share_all_check (ba); p4est_lnodes_share_owned (data, ln); owned_check (); }
    else {
      ba = p4est_lnodes_share_all_begin (data, ln);
      p4est_lnodes_share_all_end (ba); share_all_check (ba);
      bo = p4est_lnodes_share_owned_begin (data, ln); p4est_lnodes_share_owned_end (bo); owned_check ();
    }
    p4est_lnodes_buffer_destroy (ba); if (bo) p4est_lnodes_buffer_destroy (bo);
    sc_array_destroy (data);
    eng::checks (loc.size ());
    /* ghost layer for the support of the nodes */
    if (nexp) {
      if (gcd != DIM && nexp > 1) { p4est_ghost_destroy (g); g = p4est_ghost_new (p, btype_of (gcd)); gm.init (b, gcd); }
      p4est_ghost_support_lnodes (p, ln, g);
      for (int q = 0; q < P; ++q) for (int id : m.refs[q]) for (i64 j : m.supp[id]) if (gm.owner (j) != q) gm.ghosts[q].insert (j);
      gm.last = gm.ghosts;
      check_ghost (g, gm, false, "ghost layer supporting the nodes");
      CHECK (p4est_ghost_is_valid (p, g), "supporting ghost layer is reported invalid");
      for (int k = 1; k < nexp; ++k) {
        p4est_ghost_expand_by_lnodes (p, ln, g);
        std::vector<std::set<i64>> n (P);
        for (int q = 0; q < P; ++q) for (i64 i : gm.ghosts[q]) for (int id : m.id[i]) for (i64 j : m.supp[id]) if (gm.owner (j) != q && !gm.ghosts[q].count (j)) n[q].insert (j);
        gm.last = n;
        for (int q = 0; q < P; ++q) gm.ghosts[q].insert (n[q].begin (), n[q].end ());
        check_ghost (g, gm, true, "ghost layer expanded by nodes");
        CHECK (p4est_ghost_is_valid (p, g), "expanded ghost layer is reported invalid");
      }
    }
    if (keep) { p4est_lnodes_destroy (ln); ln = nullptr; }
    p4est_ghost_destroy (g);
    compare (p, b, "after numbering nodes");
    if (ln) p4est_lnodes_destroy (ln);
    if (pown) {
      g = pghost ? p4est_ghost_new (p, P4EST_CONNECT_FULL) : nullptr;
      if (detailed || degree < 1) p4est_partition_lnodes_detailed (p, g, nw[0], nw[1], 
#if VDIM == 3
 nw[2],
#endif
 nw[3], pfc);
      else p4est_partition_lnodes (p, g, degree, pfc);
      if (g) p4est_ghost_destroy (g);
      Cuts c (P + 1);
      for (int q = 0; q <= P; ++q) c[q] = p->global_first_quadrant[q];
      compare (p, b.conn, b.forest, c, b.data_size > 0, "after partition by nodes");
      if (exact) for (int q = 0; q <= P; ++q) CHECK (c[q] == want[q], "partition by nodes: process %d begins with leaf %lld, expected %lld", q, (long long) c[q], (long long) want[q]);
    }
    destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mm, "after destroying nodes, ghost layer and forest");
}
}
