/* Who owns which position: partition markers, owner queries and the parallel environment */
#include "topo.h"
#if VDIM == 3
#include <p8est_ghost.h>
#else
#include <p4est_ghost.h>
#endif
#include <mpi.h>
namespace DNS {
using namespace eng;
struct Q { int tree; Leaf l; Pt node; bool isnode; };
static p4est_quadrant_t quad (const Q & q) {
  p4est_quadrant_t r;
  if (!q.isnode) return quad_of (q.l);
  memset (&r, 0x5a, sizeof r); r.x = (p4est_qcoord_t) q.node.x[0]; r.y = (p4est_qcoord_t) q.node.x[1]; D3 (r.z = (p4est_qcoord_t) q.node.x[2];) r.level = ML;
  return r;
}
static void partition_search () {
  int n = range (1, 20); std::vector<p4est_gloidx_t> v { draw (2) ? 0 : range (0, 5) };
  for (int i = 0; i < n; ++i) v.push_back (v.back () + (draw (3) ? (i64) draw (5) * (chance (10) ? 1ll << 40 : 1) : 0));
  if (v.back () == v[0]) v.back ()++;
  for (int k = 0; k < 4; ++k) {
    i64 t = v[0] + (i64) draw (v.back () - v[0]); if (draw (2)) { t = v[draw (v.size ())] - (i64) draw (2); t = std::max<i64> (std::min<i64> (t, v.back () - 1), v[0]); }
    int w = (int) (std::upper_bound (v.begin (), v.end (), t) - v.begin ()) - 1;
    int r = p4est_bsearch_partition (t, v.data (), n);
    CHECK (r == w, "p4est_bsearch_partition of %lld is %d, expected %d", (long long) t, r, w);
  }
  int P = range (1, chance (10) ? 1000 : 20); i64 N = (i64) (draw64 () >> (14 + draw (50)));
  std::vector<p4est_gloidx_t> g (P + 2, -77);
  p4est_comm_global_first_quadrant (N, P, g.data ());
  for (int p = 0; p <= P; ++p) {
    i64 w = (i64) ((__int128) N * p / P);
    CHECK (g[p] == w, "p4est_comm_global_first_quadrant of %lld on %d processes: entry %d is %lld, expected %lld", (long long) N, P, p, (long long) g[p], (long long) w);
    CHECK (p4est_partition_cut_gloidx (N, p, P) == w && p4est_partition_cut_uint64 ((u64) N, p, P) == (u64) w, "partition cut of %lld, %d of %d, expected %lld", (long long) N, p, P, (long long) w);
  }
  CHECK (g[P + 1] == -77, "p4est_comm_global_first_quadrant writes too much");
  eng::checks (P + 5);
}
void prop () {
  BuildOpts o; o.maxP = thorough () ? 24 : 15; o.maxleaves = thorough () ? 600 : 250; Built b; draw_built (b, o);
  int P = b.cfg.P, nt = b.conn.nt; i64 n = (i64) b.leaves.size ();
  partition_search ();
  std::vector<Q> qs;
  for (int i = range (1, 8); i > 0; --i) {
    i64 g = draw (n); if (P > 1 && draw (2)) { g = b.cuts[draw (P + 1)] - (i64) draw (2); g = std::max<i64> (0, std::min (g, n - 1)); }
    Q q { b.leaves[g].tree, b.leaves[g].l, {}, false };
    switch (draw (6)) { case 1: for (int k = range (1, 3); k > 0 && q.l.level > 0; --k) q.l = q.l.parent (); break;
    case 2: for (int k = range (1, 3); k > 0 && q.l.level < QML; --k) q.l = q.l.child ((int) draw (NCH)); break;
    case 3: q.l = Leaf { draw (2) ? q.l.key : q.l.end () - qvol (QML), QML, 0 }; break;
    case 4: q.isnode = true; q.node = deinterleave (q.l.key); for (int a = 0; a < DIM; ++a) { q.node.x[a] += (i64) draw (qlen (q.l.level)); q.node.x[a] &= ~(i64) 1; if (q.node.x[a] == RL - 2 && draw (2)) q.node.x[a] = RL - 1; } break;
    case 5: q.l = Leaf { 0, 0, 0 }; }
    qs.push_back (q);
  }
  /* changes of the parallel environment */
  enum { NONE, DUP, REPLACE, REDUCE, REDUCE_ADD, RELEASE, NENV };
  int env = weighted ({ 30, 10, 15, 20, 20, 5 });
  bool want_map = draw (2), begin = draw (2), crash_map = draw (2); (void) crash_map;
  std::vector<int> keep, add;             /* kept processes in their new order */
  std::vector<int> full; for (int p = 0; p < P; ++p) if (b.cuts[p] < b.cuts[p + 1]) full.push_back (p);
  keep = full;
  if (env == REDUCE_ADD) {
    /* nonempty processes stay in order only if they are not added to the beginning */
    std::vector<int> cand; for (int p = 0; p < P; ++p) if (!begin || b.cuts[p] == b.cuts[p + 1]) cand.push_back (p);
    for (size_t i = cand.size (); i > 1; --i) std::swap (cand[i - 1], cand[draw (i)]);
    add.assign (cand.begin (), cand.begin () + (cand.empty () ? 0 : draw (cand.size () + 1)));
    std::vector<int> extra; for (int p : add) if (b.cuts[p] == b.cuts[p + 1]) extra.push_back (p);
    keep.insert (begin ? keep.begin () : keep.end (), extra.begin (), extra.end ());
    if ((int) full.size () == P) { keep = full; }
  }
  if (P == 1 || (int) full.size () == P) { keep.clear (); for (int p = 0; p < P; ++p) keep.push_back (p); }
  Cuts sub { 0 }; for (int p : keep) sub.push_back (sub.back () + b.cuts[p + 1] - b.cuts[p]);
  static const char *en[] = { "no change", "duplicate", "replace", "reduce", "reduce and add", "release" };
  label ("environment: %s", en[env]); describe ("%s, %zu of %d processes not empty, %zu added%s%s; ", en[env], full.size (), P, add.size (), begin ? " at the beginning" : "", want_map ? ", with map" : "");
  if ((int) full.size () < P) label ("empty processes");
  if (P > 1 && n > 1) nontrivial ();
  u64 fs = draw64 (); Cuts shuffled = draw_cuts (n, P); (void) shuffled;
  std::vector<i64> off (1, 0); for (auto & t : b.forest.t) off.push_back (off.back () + (i64) t.size ());
  auto owner = [&] (int tree, Key k) { return owner_of (b.cuts, off[tree] + b.forest.find (tree, k)); };
  MemMark mark = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int r) {
    p4est_t *p = build (b);
    const p4est_quadrant_t *gfp = p->global_first_position; const p4est_gloidx_t *gfq = p->global_first_quadrant;
    u64 calls = sim::calls ();
    for (int i = 0; i < P; ++i) {
      bool e = b.cuts[i] == b.cuts[i + 1];
      CHECK (!p4est_comm_is_empty (p, i) == !e && !p4est_comm_is_empty_gfq (gfq, P, i) == !e && !p4est_comm_is_empty_gfp (gfp, P, i) == !e, "process %d: emptiness of process %d is not %d", r, i, e);
    }
    for (auto & q : qs) {
      p4est_quadrant_t x = quad (q);
      Pt at = q.node; if (q.isnode) for (int a = 0; a < DIM; ++a) at.x[a] &= ~(i64) 1;
      Key first = q.isnode ? interleave (at.x) : q.l.key, last = q.isnode ? first : q.l.end () - 1;
      int w = owner (q.tree, first), wl = owner (q.tree, last);
      std::string ctx = "process " + std::to_string (r) + ": " + (q.isnode ? "node " + std::to_string (x.x) + " " + std::to_string (x.y) : str (q.tree, q.l));
      for (int i = 0; i < P; ++i) {
        CHECK (!p4est_comm_is_owner (p, q.tree, &x, i) == (i != w), "%s: p4est_comm_is_owner of process %d is wrong, owner is %d", ctx.c_str (), i, w);
        CHECK (!p4est_comm_is_owner_gfp (gfp, P, nt, q.tree, &x, i) == (i != w), "%s: p4est_comm_is_owner_gfp of process %d is wrong, owner is %d", ctx.c_str (), i, w);
        int f = p4est_comm_find_owner (p, q.tree, &x, i);
        CHECK (f == w, "%s: p4est_comm_find_owner with guess %d is %d, expected %d", ctx.c_str (), i, f, w);
        if (!q.isnode) CHECK (!p4est_comm_is_contained (p, q.tree, &x, i) == !(w == i && wl == i), "%s: p4est_comm_is_contained for process %d is wrong, owners are %d to %d", ctx.c_str (), i, w, wl);
      }
      eng::checks (4 * P);
      /* the same quadrant, inside or moved across a face */
      if (q.isnode) continue;
      int fo = p4est_quadrant_find_owner (p, q.tree, -1, &x);
      CHECK (fo == w, "%s: p4est_quadrant_find_owner is %d, expected %d", ctx.c_str (), fo, w);
      Pt base = deinterleave (q.l.key); i64 h = qlen (q.l.level);
      for (int f = 0; f < NF; ++f) {
        Pt o = base; o.x[f / 2] += f & 1 ? RL : -RL;  /* as deep as possible, or next to the face */
        if (mix (fs, f, q.l.key) & 1) o.x[f / 2] = f & 1 ? RL : -h;
        p4est_quadrant_t z = raw_quad (o, q.l.level);
        int want = -1; if (!b.conn.fmap[q.tree * NF + f].boundary) { Pt in = b.conn.facebox (q.tree, f, o, h); want = owner (b.conn.fmap[q.tree * NF + f].nt, interleave (in.x)); }
        int g1 = p4est_quadrant_find_owner (p, q.tree, -1, &z), g2 = p4est_quadrant_find_owner (p, q.tree, f, &z);
        CHECK (g1 == want && g2 == want, "%s: across face %d at %s p4est_quadrant_find_owner is %d, with the face given %d, expected %d", ctx.c_str (), f, str (o).c_str (), g1, g2, want);
      }
      eng::checks (2 * NF + 1);
    }
    /* what is known about local trees */
    for (int t = p->first_local_tree; t <= p->last_local_tree; ++t) {
      int fullt[2] = { 7, 7 }, contact[NF]; const p4est_quadrant_t *fq = nullptr, *nq = nullptr;
      bool wc = mix (fs, t, r) & 1;
      p4est_comm_tree_info (p, t, fullt, wc ? contact : nullptr, (mix (fs, t) & 2) ? &fq : nullptr, (mix (fs, t) & 4) ? &nq : nullptr);
      CHECK (!fullt[0] == !(b.cuts[r] <= off[t]) && !fullt[1] == !(b.cuts[r + 1] >= off[t + 1]), "process %d: p4est_comm_tree_info: ownership of the ends of tree %d is %d %d", r, t, fullt[0], fullt[1]);
      CHECK ((!fq || fq == gfp + r) && (!nq || nq == gfp + r + 1), "process %d: p4est_comm_tree_info returns wrong positions", r);
      for (int f = 0; wc && f < NF; ++f) CHECK (!contact[f] == b.conn.fmap[t * NF + f].boundary, "process %d: p4est_comm_tree_info: contact of tree %d across face %d is %d", r, t, f, contact[f]);
      if (!wc) continue;
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
      for (size_t z = 0; z < tr->quadrants.elem_count && z < 60; ++z) {
        p4est_quadrant_t q = *p4est_quadrant_array_index (&tr->quadrants, z);
        Leaf l = leaf_of (&q); Pt base = deinterleave (l.key); i64 h = qlen (l.level);
        bool own = true, inner = true;
        for (int a = 0; a < DIM; ++a) inner &= base.x[a] > 0 && base.x[a] + h < RL;
        std::vector<Conn::Image> im;
        for (int k = 0; k < NDIR; ++k) { const int *d = direction (k); if (!dir_codim (d)) continue; im.clear (); b.conn.images (t, base, h, d, im);
          for (auto & i : im) { Key kk = interleave (i.p.x); kk &= ~(qvol (l.level) - 1); own &= owner (i.tree, kk) == r && owner (i.tree, kk + qvol (l.level) - 1) == r; } }
        int res = p4est_comm_neighborhood_owned (p, t, fullt, contact, &q);
        CHECK (!res || own, "process %d: p4est_comm_neighborhood_owned is true for %s, which has neighbors on other processes", r, str (t, l).c_str ());
        if (inner) CHECK (!res == !own, "process %d: p4est_comm_neighborhood_owned is false for %s inside the tree", r, str (t, l).c_str ());
        eng::checks (1);
      }
    }
    CHECK (calls == sim::calls (), "process %d: an owner query communicates", r);
    /* collective helpers */
    std::vector<p4est_gloidx_t> per (nt + 2, -5);
    p4est_comm_count_pertree (p, per.data ());
    for (int t = 0; t <= nt; ++t) CHECK (per[t] == off[t], "process %d: p4est_comm_count_pertree: entry %d is %lld, expected %lld", r, t, (long long) per[t], (long long) off[t]);
    CHECK (per[nt + 1] == -5, "p4est_comm_count_pertree writes too much");
    for (int i = 0; i <= P; ++i) p->global_first_quadrant[i] = -9 - i;
    p->global_num_quadrants = -1;
    p4est_comm_count_quadrants (p);
    memset (p->global_first_position, 0x3c, sizeof (p4est_quadrant_t) * (P + 1));
    { p4est_quadrant_t first; bool give = (mix (fs, 77, r) & 1) && b.cuts[r] < b.cuts[r + 1]; if (give) first = quad_of (b.leaves[b.cuts[r]].l); p4est_comm_global_partition (p, give ? &first : nullptr); }
    compare (p, b, "after the markers were computed again");
    int any = 0, all = 1; auto flag = [&] (int i) { return (mix (fs, i, 3) % 100) < (fs & 1 ? 10 : 90); };
    for (int i = 0; i < P; ++i) any |= flag (i), all &= flag (i);
    int fl = flag (r) ? (int) (1 + (mix (fs, r) & 6)) : 0;
    CHECK (!p4est_comm_sync_flag (p, fl, MPI_BOR) == !any && !p4est_comm_sync_flag (p, fl, MPI_BAND) == !all, "process %d: p4est_comm_sync_flag does not combine the flags", r);
    unsigned crc = p4est_checksum (p);
    /* parallel environment */
    CHECK (!p4est_comm_parallel_env_is_null (p), "the communicator is null");
    MPI_Comm dup = MPI_COMM_NULL; int me = r; const Cuts *cuts = &b.cuts;
    switch (env) {
    case DUP: if (!p->mpicomm_owned) { p4est_comm_parallel_env_duplicate (p); CHECK (p->mpicomm_owned, "a duplicate is not owned"); } else { p->mpisize = -3; p->mpirank = -3; p4est_comm_parallel_env_get_info (p); } break;
    case REPLACE: MPI_Comm_dup (MPI_COMM_WORLD, &dup); p4est_comm_parallel_env_replace (p, dup); CHECK (p->mpicomm == dup && !p->mpicomm_owned, "p4est_comm_parallel_env_replace does not use the new communicator, unowned"); break;
    case RELEASE: p4est_comm_parallel_env_release (p); CHECK (p4est_comm_parallel_env_is_null (p), "the communicator is not released"); p4est_comm_parallel_env_assign (p, MPI_COMM_WORLD); CHECK (!p->mpicomm_owned, "an assigned communicator is owned"); break;
    case REDUCE: case REDUCE_ADD: {
      MPI_Group world, grp = MPI_GROUP_NULL; int *map = (int *) 16;
      p4est_connectivity_t *c = p->connectivity;
      if (env == REDUCE_ADD) { MPI_Comm_group (MPI_COMM_WORLD, &world); MPI_Group_incl (world, (int) add.size (), add.data (), &grp); MPI_Group_free (&world); }
      int ex = env == REDUCE && !want_map ? p4est_comm_parallel_env_reduce (&p) : p4est_comm_parallel_env_reduce_ext (&p, grp, begin, want_map ? &map : nullptr);
      if (env == REDUCE_ADD) MPI_Group_free (&grp);
      me = (int) (std::find (keep.begin (), keep.end (), r) - keep.begin ());
      bool in = me < (int) keep.size ();
      CHECK (!ex == !in && (p != nullptr) == in, "process %d: reducing the communicator %s this process", r, ex ? "keeps" : "removes");
      if (want_map) {
        CHECK (map != (int *) 16, "process %d: the map of processes is not set", r);
        CHECK (in || !map, "process %d: a map of processes without a forest", r);
        if (map) { for (size_t i = 0; i < keep.size (); ++i) CHECK (map[i] == keep[i], "process %d: process %zu of the reduced communicator is %d, expected %d", r, i, map[i], keep[i]);
          sc_free (p4est_package_id, map); }
        else CHECK (!in, "process %d: no map of processes is returned", r);
      }
      cuts = &sub;
      if (!in) { p4est_connectivity_destroy (c); return; }
      break; } }
    compare_as (p, b.conn, b.forest, *cuts, b.data_size > 0, "after a change of the parallel environment", me);
    CHECK (p4est_is_valid (p), "process %d: the forest is not valid after a change of the parallel environment", r);
    unsigned crc2 = p4est_checksum (p);
    CHECK ((me && r) || crc2 == crc || (me == 0 && r != 0), "process %d: the checksum changes with the parallel environment", r);
    p4est_comm_count_pertree (p, per.data ());
    for (int t = 0; t <= nt; ++t) CHECK (per[t] == off[t], "process %d: p4est_comm_count_pertree after a change of the parallel environment: entry %d is %lld, expected %lld", r, t, (long long) per[t], (long long) off[t]);
    destroy (p);
    if (dup != MPI_COMM_NULL) MPI_Comm_free (&dup);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after the queries");
}
}
