/* Copies, rebuilt and serialized forests */
#include "harness.h"
#include <mpi.h>
#if VDIM == 3
#include <p8est_build.h>
#include <p8est_io.h>
#include <p8est_search.h>
#else
#include <p4est_build.h>
#include <p4est_io.h>
#include <p4est_search.h>
#endif
namespace DNS {
using namespace eng;
/* ---------------------------------------------------------------- callbacks */
struct Ctx { u64 seed = 0; size_t size = 0; int calls = 0; p4est_t *p = nullptr; bool bad = false; p4est_build_t *build = nullptr; std::function<bool (int, const Leaf &)> take; int added = 0;
  u64 tag (int which, int tree, const Leaf & l) const { return mix (seed, mix ((u64) tree, kh (l.key), (u64) l.level), (u64) which); } };
static void init_n (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, int which) {
  Ctx *c = (Ctx *) p->user_pointer; c->calls++;
  if (p->data_size != c->size) { c->bad = true; return; }
  fill_bytes (q->p.user_data, c->size, c->tag (which, t, leaf_of (q)));
}
static void init_a (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { init_n (p, t, q, 1); }
static void init_b (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { init_n (p, t, q, 2); }
static void init_c (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { init_n (p, t, q, 3); }
static int refine_all (p4est_t *, p4est_topidx_t, p4est_quadrant_t * q) { return (q->level < 3); }
static void scramble (p4est_t * p) {    /* overwrite the data and change the leaves */
  for (int t = p->first_local_tree; t <= p->last_local_tree; ++t) { p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) { p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z); if (p->data_size) memset (q->p.user_data, 0x77, p->data_size); } }
  p4est_refine (p, 0, refine_all, nullptr);
}
static size_t draw_size () { static const size_t s[] = { 8, 0, 1, 4, 24, 100, 3 }; return s[draw (7)]; }

/* ------------------------------------------------------------- copy and reset */
static void mode_copy () {
  BuildOpts o; o.maxP = 9; o.maxleaves = thorough () ? 400 : 150; Built b; draw_built (b, o);
  bool with = draw (2), dup = chance (40), ext = draw (2), first = draw (2), change = draw (2), reset = draw (2);
  size_t ns = draw_size (); bool ninit = chance (75), same = chance (20); if (same) ns = with ? b.data_size : 0;
  u64 seed = draw64 ();
  label ("copy"); describe ("copy%s%s%s, %s destroyed first; ", with ? " with data" : "", ext && dup ? ", own communicator" : "", reset ? ", data reset" : "", first ? "original" : "copy");
  if (b.leaves.size () > 1) nontrivial ();
  MemMark mark = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int r) {
    int some = 0; p4est_t *p = build (b, &some); p4est_inspect_t insp; memset (&insp, 0, sizeof insp);
    p->inspect = &insp;
    long rev = p->revision;
    p4est_t *q = ext ? p4est_copy_ext (p, with, dup) : p4est_copy (p, with);
    CHECK (q->inspect == nullptr, "process %d: the inspect member of a copy is not NULL", r);
    p->inspect = nullptr; q->inspect = nullptr;
    CHECK (q->revision == 0 && p->revision == rev, "process %d: revision of the copy is %ld, of the original %ld, was %ld", r, q->revision, p->revision, rev);
    CHECK (q->data_size == (with ? b.data_size : 0) && (q->user_data_pool != nullptr) == (q->data_size > 0), "process %d: the copy has data size %zu", r, q->data_size);
    CHECK (q->user_pointer == &some && q->connectivity == p->connectivity, "process %d: the copy has other pointers", r);
    CHECK (!q->mpicomm_owned == !(ext && dup), "process %d: ownership of the communicator is %d", r, q->mpicomm_owned);
    int cmp = -1; MPI_Comm_compare (p->mpicomm, q->mpicomm, &cmp); CHECK (cmp == (ext && dup ? MPI_CONGRUENT : MPI_IDENT), "process %d: the copy has another communicator", r);
    compare (q, b.conn, b.forest, b.cuts, with && b.data_size > 0, "copy");
    CHECK (p4est_is_equal (p, q, 0) && p4est_is_equal (q, p, 0), "process %d: the copy is not equal", r);
    CHECK (!p4est_is_equal (p, q, 1) == !(with || b.data_size == 0), "process %d: equality with data of a copy is wrong", r);
    Ctx ctx; ctx.seed = seed; ctx.size = ns;
    p4est_connectivity_t *conn = p->connectivity;
    auto drop = [&] (p4est_t * x) { if (change) { scramble (x); } p4est_destroy (x); };
    p4est_t *keep = first ? q : p;
    drop (first ? p : q);
    bool data = b.data_size > 0 && (keep == p || with);
    compare (keep, b.conn, b.forest, b.cuts, data, first ? "the copy, with the original gone" : "the original, with the copy gone");
    if (reset) {
      size_t old = keep->data_size;
      p4est_reset_data (keep, ns, ninit ? init_a : nullptr, &ctx);
      CHECK (keep->data_size == ns && keep->user_pointer == &ctx && (keep->user_data_pool != nullptr) == (ns > 0), "process %d: p4est_reset_data sets data size %zu, expected %zu", r, keep->data_size, ns);
      CHECK (ctx.calls == (ninit ? keep->local_num_quadrants : 0) && !ctx.bad, "process %d: p4est_reset_data makes %d init calls for %d leaves", r, ctx.calls, keep->local_num_quadrants);
      Forest f = b.forest; if (ninit) set_tags (f, [&] (int t, const Leaf & l) { return ctx.tag (1, t, l); });
      if (ns > 0) CHECK (keep->user_data_pool->elem_count == (size_t) keep->local_num_quadrants, "process %d: %zu data items for %d leaves", r, keep->user_data_pool->elem_count, keep->local_num_quadrants);
      if (sim::rank () == 0) eng::checks ();
      sim::host_barrier ();
      compare (keep, b.conn, f, b.cuts, ns > 0 && (ninit || (data && old == ns)), "after p4est_reset_data");
      scramble (keep);
    }
    p4est_destroy (keep);
    p4est_connectivity_destroy (conn);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after copying");
}

/* ------------------------------------------------------------------- rebuild */
struct Add { int tree; Leaf l; int which; bool twice; };
static void tile (const Leaf & c, Key lo, Key hi, const Tree & added, Tree & out) {
  if (c.end () <= lo || c.key >= hi) return;
  if (lo <= c.key && c.end () <= hi) {
    auto it = std::lower_bound (added.begin (), added.end (), Leaf { c.key, 0, 0 }, [] (const Leaf & a, const Leaf & b) { return a.key < b.key; });
    if (it == added.end () || it->key >= c.end ()) { out.push_back (c); out.back ().tag = 0; return; }
    if (it->level == c.level) { out.push_back (*it); return; }
  }
  for (int k = 0; k < NCH; ++k) tile (c.child (k), lo, hi, added, out);
}
static int search_add (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t local, void *) {
  Ctx *c = (Ctx *) p->user_pointer; Leaf l = leaf_of (q);
  if (local >= 0 && c->take (t, l)) { c->added += p4est_build_add (c->build, t, q); if (mix (c->seed, kh (l.key)) % 5 == 0) c->bad |= p4est_build_add (c->build, t, q) != 0; }
  return 1;
}
static void mode_build () {
  BuildOpts o; o.maxP = 9; o.maxleaves = thorough () ? 500 : 200; Built b; draw_built (b, o);
  int P = b.cfg.P; size_t ns = draw_size (); bool search = chance (35), other = draw (2), first = draw (2); int density = draw (2) ? range (0, 100) : range (0, 10); int exotic = search ? 0 : (int) draw (40);
  u64 seed = draw64 ();
  static p4est_init_t fn[] = { nullptr, init_a, init_b, init_c };
  int base = chance (85) ? 1 : 0;
  /* per process additions in order */
  std::vector<std::vector<Add>> adds (P); std::vector<std::vector<std::pair<int, Tree>>> res (P); bool alldata = base > 0; i64 nadd = 0;
  Forest f; f.conn = &b.conn; f.t.resize (b.conn.nt); Cuts cuts { 0 };
  for (int r = 0; r < P; ++r) {
    int which = base; i64 total = 0;
    for (i64 g = b.cuts[r]; g < b.cuts[r + 1];) {
      int t = b.leaves[g].tree; i64 e = g; while (e < b.cuts[r + 1] && b.leaves[e].tree == t) ++e;
      Key lo = b.leaves[g].l.key, hi = b.leaves[e - 1].l.end (); Tree added;
      for (i64 i = g; i < e; ++i) {
        const Leaf & l = b.leaves[i].l;
        if (added.size () && added.back ().end () > l.key) continue;
        u64 h = mix (seed, (u64) i);
        if ((int) (h % 100) >= density) continue;
        if (other && !search && mix (h, 3) % 4 == 0) which = (int) (mix (h, 4) % 3) + (base ? 1 : 0);
        auto push = [&] (Leaf a) { a.tag = (u64) which; added.push_back (a); adds[r].push_back (Add { t, a, which, mix (h, 5) % 4 == 0 }); nadd++; };
        if ((int) (mix (h, 1) % 100) < exotic) {
          if (mix (h, 2) & 1) { Leaf a = l; for (int k = (int) (mix (h, 6) % 3) + 1; k > 0 && a.level > 0 && a.parent ().key >= lo && a.parent ().end () <= hi && !(added.size () && added.back ().end () > a.parent ().key); --k) a = a.parent (); push (a); }
          else { Leaf a = l; for (int k = (int) (mix (h, 6) % 4) + 1; k > 0 && a.level < QML; --k) { int c = (int) (mix (h, 7, k) % NCH); if (c && mix (h, 8, k) % 3 == 0) push (a.child (c - 1)); a = a.child (c); } push (a); }
        }
        else push (l);
      }
      Tree out; tile (Leaf { 0, 0, 0 }, lo, hi, added, out);
      for (auto & l : out) { Ctx c; c.seed = seed; alldata &= ns > 0 && (l.tag || base); l.tag = c.tag (l.tag ? (int) l.tag : base, t, l); f.t[t].push_back (l); ++total; }
      g = e;
    }
    cuts.push_back (cuts.back () + total);
  }
  label (search ? "build within a search" : "build"); if (exotic) label ("build with other leaves");
  describe ("build %lld leaves from %lld added, %lld before%s; ", (long long) f.count (), (long long) nadd, (long long) b.leaves.size (), search ? ", in a search" : "");
  if (nadd > 0 && f.count () > 1) nontrivial ();
  MemMark mark = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int r) {
    Ctx old, ctx; ctx.seed = old.seed = seed; ctx.size = ns; int calls = 0;
    p4est_t *p = build (b, &old); bool any = false;
    p4est_build_t *bu = p4est_build_new (p, ns, fn[base], &ctx);
    if (search) {
      std::set<std::pair<int, std::pair<Key, int>>> want; for (auto & a : adds[r]) want.insert ({ a.tree, { a.l.key, a.l.level } });
      old.build = bu; old.take = [&] (int t, const Leaf & l) { return want.count ({ t, { l.key, l.level } }) > 0; };
      p4est_search_local (p, 0, search_add, nullptr, nullptr);
      CHECK (old.added == (int) want.size (), "process %d: p4est_build_add added %d of %zu leaves", r, old.added, want.size ());
      CHECK (!old.bad, "process %d: p4est_build_add adds the same leaf twice", r);
    }
    else {
      int which = base;
      for (auto & a : adds[r]) {
        if (a.which != which) { p4est_build_init_add (bu, fn[a.which]); which = a.which; }
        p4est_quadrant_t q = quad_of (a.l); q.p.user_data = &any;
        int n = p4est_build_add (bu, a.tree, &q);
        CHECK (n, "process %d: p4est_build_add does not add %s", r, str (a.tree, a.l).c_str ());
        if (a.twice) { n = p4est_build_add (bu, a.tree, &q); CHECK (!n, "process %d: p4est_build_add adds %s twice", r, str (a.tree, a.l).c_str ()); }
      }
    }
    if (first && !search) { scramble (p); CHECK (p->data_size == b.data_size, "internal"); }
    p4est_t *q = p4est_build_complete (bu);
    calls = ctx.calls;
    CHECK (!ctx.bad, "process %d: init called with a wrong data size", r);
    CHECK (q->revision == 0 && q->user_pointer == &ctx && q->data_size == ns && q->inspect == nullptr && !q->mpicomm_owned, "process %d: wrong members of the new forest", r);
    CHECK ((q->user_data_pool != nullptr) == (ns > 0), "process %d: wrong data pool", r);
    if (base && !(other && !search)) CHECK (calls == q->local_num_quadrants, "process %d: %d init calls for %d leaves", r, calls, q->local_num_quadrants);
    CHECK (p4est_is_valid (q), "process %d: the new forest is not valid", r);
    compare (q, b.conn, f, cuts, alldata, "new forest");
    p4est_connectivity_t *c = p->connectivity;
    p4est_destroy (p);
    compare (q, b.conn, f, cuts, alldata, "new forest with the original gone");
    scramble (q);
    p4est_destroy (q); p4est_connectivity_destroy (c);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after building");
}

/* --------------------------------------------------------- deflate and inflate */
struct Rec { i64 x[3]; i64 level; };
static void mode_inflate () {
  BuildOpts o; o.maxP = 9; o.maxleaves = thorough () ? 500 : 200; Built b; draw_built (b, o);
  int P = b.cfg.P; i64 n = (i64) b.leaves.size (); bool ask = b.data_size > 0 && draw (2), null = draw (2), recut = draw (2), damage = chance (35); Cuts cuts = recut ? draw_cuts (n, P) : b.cuts;
  std::vector<i64> per (1, 0); for (auto & t : b.forest.t) per.push_back (per.back () + (i64) t.size ());
  std::vector<Rec> recs; for (auto & g : b.leaves) { Pt p = deinterleave (g.l.key); recs.push_back (Rec { { p.x[0], p.x[1], p.x[2] }, g.l.level }); }
  std::vector<i64> badper = per; std::vector<Rec> bad = recs; std::string what;
  if (damage) {
    i64 i = draw (n); if (draw (3) == 0 && P > 1) { i = cuts[draw (P + 1)] - (i64) draw (2); i = std::max<i64> (0, std::min (i, n - 1)); }
    Rec & x = bad[i]; int a = (int) draw (DIM);
    switch (draw (7)) {
    case 0: { i64 w = draw (2) ? qlen ((int) x.level) : (i64) 1 << draw (ML); x.x[a] += draw (2) ? w : -w; what = "a coordinate is changed"; break; }
    case 1: { i64 l = draw (2) ? x.level + 1 : draw (2) ? x.level - 1 : (i64) draw (256) - 128; if (l == x.level) l = x.level + 1; x.level = l; what = "a level is changed"; break; }
    case 2: { i64 j = draw (n); if (j == i) j = (i + 1) % n; if (n == 1) discard (); if (bad[i].level == bad[j].level && !memcmp (bad[i].x, bad[j].x, sizeof bad[i].x)) discard (); std::swap (bad[i], bad[j]); what = "two leaves are exchanged"; break; }
    case 3: if (n == 1) discard (); if (i + 1 < n) { if (!memcmp (&bad[i], &bad[i + 1], sizeof (Rec))) discard (); bad[i] = bad[i + 1]; } else { if (!memcmp (&bad[i], &bad[i - 1], sizeof (Rec))) discard (); bad[i] = bad[i - 1]; } what = "a leaf is repeated"; break;
    case 4: x.x[a] = (i64) (int32_t) draw64 (); if (x.x[a] == recs[i].x[a]) discard (); what = "a coordinate is arbitrary"; break;
    case 5: { int nt = b.conn.nt; if (nt < 2) discard (); int t = range (1, nt - 1); i64 w = draw (2) ? 1 : range (1, 9); badper[t] += draw (2) ? w : -w; if (badper[t] <= badper[t - 1] || badper[t] >= badper[t + 1]) discard (); what = "a tree boundary is moved"; break; }
    case 6: { if (n < 2 || i == 0) discard (); /* a hole between two processes or trees: shift everything */ Rec keep = bad[i]; for (i64 k = i; k + 1 < n; ++k) bad[k] = bad[k + 1]; if (!memcmp (&bad[n - 1], &keep, sizeof keep)) discard (); bad[n - 1] = keep; what = "a leaf is moved to the end"; break; }
    }
    for (auto & v : bad) for (i64 & c : v.x) c = (int32_t) c;
    /* still the same leaf sequence? */
    bool same = badper == per; for (i64 k = 0; same && k < n; ++k) { same &= bad[k].level == recs[k].level && !memcmp (bad[k].x, recs[k].x, sizeof bad[k].x); }
    if (same) discard ();
    label ("invalid records: %s", what.c_str ());
  } else label ("deflate and inflate");
  describe ("%s%s%s%s; ", damage ? what.c_str () : "inflate", ask ? " with data" : "", null ? " (null variant)" : "", recut ? " in another partition" : "");
  if (n > 1) nontrivial ();
  auto pack = [&] (int r, const std::vector<Rec> & v) { sc_array_t *a = sc_array_new_count (sizeof (p4est_qcoord_t), (DIM + 1) * (cuts[r + 1] - cuts[r])); p4est_qcoord_t *w = (p4est_qcoord_t *) a->array;
    for (i64 g = cuts[r]; g < cuts[r + 1]; ++g) { for (int k = 0; k < DIM; ++k) *w++ = (p4est_qcoord_t) v[g].x[k]; *w++ = (p4est_qcoord_t) v[g].level; } return a; };
  auto packdata = [&] (int r) { sc_array_t *a = sc_array_new_count (b.data_size, cuts[r + 1] - cuts[r]); char *w = a->array; for (i64 g = cuts[r]; g < cuts[r + 1]; ++g) { fill_bytes (w, b.data_size, b.leaves[g].l.tag); w += b.data_size; } return a; };
  MemMark mark = mem_mark (); sim::Report rep;
  auto body = [&] (int r) {
    std::vector<p4est_gloidx_t> gfq (cuts.begin (), cuts.end ()), pt (badper.begin (), badper.end ());
    int some;
    if (damage) {
      p4est_connectivity_t *c = b.conn.make (); sc_array_t *a = pack (r, bad), *d = ask ? packdata (r) : nullptr;
      p4est_t *q = p4est_inflate_null (MPI_COMM_WORLD, c, gfq.data (), pt.data (), a, d, &some);
      CHECK (q == nullptr, "process %d: p4est_inflate_null accepts a forest in which %s", r, what.c_str ());
      sc_array_destroy (a); if (d) sc_array_destroy (d); p4est_connectivity_destroy (c);
      return;
    }
    p4est_t *p = build (b);
    sc_array_t *d = (sc_array_t *) 16, *a = p4est_deflate_quadrants (p, ask ? &d : nullptr);
    i64 L = b.cuts[r + 1] - b.cuts[r]; const p4est_qcoord_t *w = (const p4est_qcoord_t *) a->array;
    CHECK (a->elem_size == sizeof (p4est_qcoord_t) && (i64) a->elem_count == (DIM + 1) * L, "process %d: p4est_deflate_quadrants returns %zu numbers", r, a->elem_count);
    CHECK (!ask || (d->elem_size == b.data_size && (i64) d->elem_count == L), "process %d: p4est_deflate_quadrants returns wrong data sizes", r);
    for (i64 g = 0; g < L; ++g) { const Rec & x = recs[b.cuts[r] + g]; for (int k = 0; k < DIM; ++k) CHECK (w[k] == x.x[k], "process %d: deflated leaf %lld is wrong", r, (long long) g);
      CHECK (w[DIM] == x.level, "process %d: deflated level of leaf %lld is wrong", r, (long long) g); w += DIM + 1;
      if (ask) CHECK (check_bytes (sc_array_index (d, g), b.data_size, b.leaves[b.cuts[r] + g].l.tag), "process %d: deflated data of leaf %lld is wrong", r, (long long) g); }
    compare (p, b, "the deflated forest");
    eng::checks (L);
    if (recut) { sc_array_destroy (a); a = pack (r, recs); if (ask) { sc_array_destroy (d); d = packdata (r); } }
    p4est_t *q = (null ? p4est_inflate_null : p4est_inflate) (MPI_COMM_WORLD, p->connectivity, gfq.data (), pt.data (), a, ask ? d : nullptr, &some);
    CHECK (q, "process %d: p4est_inflate_null returns NULL for a valid forest", r);
    memset (a->array, 0x11, a->elem_count * a->elem_size); std::fill (gfq.begin (), gfq.end (), -1); std::fill (pt.begin (), pt.end (), -1);
    sc_array_destroy (a); if (ask) { memset (d->array, 0x11, d->elem_count * d->elem_size); sc_array_destroy (d); }
    CHECK (q->revision == 0 && q->user_pointer == &some && q->data_size == (ask ? b.data_size : 0) && q->connectivity == p->connectivity, "process %d: wrong members of the inflated forest", r);
    compare (q, b.conn, b.forest, cuts, ask, "inflated forest");
    if (!recut) CHECK (p4est_is_equal (p, q, 0) && !p4est_is_equal (p, q, 1) == !(ask || b.data_size == 0), "process %d: the inflated forest is not equal", r);
    p4est_connectivity_t *c = p->connectivity; p4est_destroy (p);
    scramble (q); p4est_destroy (q); p4est_connectivity_destroy (c);
  };
  if (damage && asan ()) {      /* assertions of the debug library may reject the records first */
    Attempt how = attempt ([&] { sim::run (b.cfg, body, &rep); });
    CHECK (how == Attempt::RETURNED || how == Attempt::ABORTED, "p4est_inflate_null crashes when %s", what.c_str ());
    eng::checks (); return;
  }
  sim::run (b.cfg, body, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after inflating");
}

/* ------------------------------------------------------------------ equality */
static void mode_equal () {
  BuildOpts o; o.maxP = 9; o.maxleaves = thorough () ? 300 : 100; Built b, c; draw_built (b, o);
  c.conn = b.conn; c.forest = b.forest; c.forest.conn = &c.conn; c.cuts = b.cuts; c.data_size = b.data_size; c.cfg = b.cfg; c.tagseed = b.tagseed;
  i64 n = (i64) b.leaves.size (); int P = b.cfg.P; i64 spoiled = -1; bool connsame = true; std::vector<std::string> ch;
  TagFn tf = [&] (int t, const Leaf & l) { return b.tag (t, l); };
  for (int k = (int) draw (3); k > 0; --k) switch (draw (6)) {
  case 0: c.cuts = draw_cuts (c.forest.count (), P); ch.push_back ("another partition"); break;
  case 1: case 2: { /* refine one leaf, coarsen another family where possible: the count may remain */
    auto fl = flat (c.forest); GL g = fl[draw (fl.size ())]; if (g.l.level >= QML) break;
    Tree & t = c.forest.t[g.tree]; auto it = std::lower_bound (t.begin (), t.end (), g.l); t.erase (it); it = std::lower_bound (t.begin (), t.end (), g.l); Tree kids; for (int i = 0; i < NCH; ++i) kids.push_back (g.l.child (i)); t.insert (it, kids.begin (), kids.end ());
    bool done = false; int st = (int) draw (b.conn.nt);
    for (int s = 0; s < b.conn.nt && !done; ++s) { int tt = (st + s) % b.conn.nt; Tree & u = c.forest.t[tt]; for (size_t i = 0; i + NCH <= u.size (); ++i) { if (u[i].level == 0 || u[i].childid () || u[i + NCH - 1].level != u[i].level || u[i + NCH - 1].end () != u[i].parent ().end ()) continue;
        if (tt == g.tree && u[i].parent () == g.l) continue; Leaf pa = u[i].parent (); u.erase (u.begin () + i, u.begin () + i + NCH); u.insert (u.begin () + i, pa); done = true; break; } }
    i64 m = c.forest.count (); if (!done) { for (auto & x : c.cuts) if (x > 0) x = std::min (m, x + (x == (i64) fl.size () ? m : 0)); c.cuts.back () = m; }
    ch.push_back (done ? "two changes of leaves" : "a refined leaf"); break; }
  case 3: if (b.data_size) { spoiled = draw (n); ch.push_back ("one data byte"); } break;
  case 4: c.data_size = draw_size (); if (c.data_size != b.data_size) ch.push_back ("data size"); break;
  case 5: if (b.conn.nv) { c.conn.vertices[draw (c.conn.vertices.size ())] += 1.5; connsame = false; ch.push_back ("a vertex"); } break;
  }
  set_tags (c.forest, tf); c.leaves = flat (c.forest); set_tags (b.forest, tf); b.leaves = flat (b.forest);
  if (spoiled >= (i64) c.leaves.size ()) spoiled = 0;
  label ("equality: %s", ch.empty () ? "same" : "different"); for (auto & x : ch) { label ("equality: %s", x.c_str ()); describe ("%s; ", x.c_str ()); }
  if (n > 1) nontrivial ();
  auto pos = [&] (const Built & x, int p) { i64 g = x.cuts[p]; return g == (i64) x.leaves.size () ? std::make_pair (x.conn.nt, (Key) 0) : std::make_pair (x.leaves[g].tree, x.leaves[g].l.key); };
  bool glob = connsame && b.cuts == c.cuts; for (int p = 0; p <= P; ++p) glob &= pos (b, p) == pos (c, p);
  MemMark mark = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int r) {
    p4est_t *p = build (b), *q = build (c);
    bool eq = glob; for (i64 g = b.cuts[r]; eq && g < b.cuts[r + 1]; ++g) eq &= b.leaves[g].tree == c.leaves[g].tree && b.leaves[g].l == c.leaves[g].l;
    bool deq = eq && b.data_size == c.data_size;
    if (spoiled >= c.cuts[r] && spoiled < c.cuts[r + 1] && c.data_size) {
      const GL & g = c.leaves[spoiled]; p4est_tree_t *t = p4est_tree_array_index (q->trees, g.tree);
      i64 li = spoiled - c.cuts[r] - t->quadrants_offset; p4est_quadrant_t *x = p4est_quadrant_array_index (&t->quadrants, li);
      ((unsigned char *) x->p.user_data)[c.tagseed % c.data_size] ^= 0x20; if (b.data_size) deq = false;
    }
    p->user_pointer = &p; q->user_pointer = &q; q->revision += 3;
    for (int k = 0; k < 2; ++k) {
      p4est_t *x = k ? p : q, *y = k ? q : p;
      CHECK (!p4est_is_equal (x, y, 0) == !eq, "process %d: p4est_is_equal without data is %d", r, !eq);
      CHECK (!p4est_is_equal (x, y, 1) == !deq, "process %d: p4est_is_equal with data is %d", r, !deq);
    }
    CHECK (p4est_is_equal (p, p, 1), "process %d: a forest is not equal to itself", r);
    eng::checks (5);
    destroy (p); destroy (q);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after comparing");
}
void prop () {
  switch (weighted ({ 25, 35, 25, 20 })) { case 0: mode_copy (); break; case 1: mode_build (); break; case 2: mode_inflate (); break; default: mode_equal (); }
}
}
