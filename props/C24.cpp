/* The layered column forest: histories against a model of columns and layers */
#include "history.h"
#include <mpi.h>
#include <p6est.h>
#include <p6est_extended.h>
#include <p6est_ghost.h>
#include <p6est_lnodes.h>
#include <p6est_communication.h>
namespace DNS {
using namespace eng;
/* ------------------------------------------------------------------- model */
struct Lay { i64 z; int level; u64 tag; bool known; };
typedef std::vector<Lay> Col;
struct Sheet {
  Forest f; Cuts cuts; std::vector<std::vector<Col>> lay; i64 root = 0; int zroot = 1; size_t dsize = 0;
  i64 nlay () const { i64 n = 0; for (auto & t : lay) for (auto & c : t) n += (i64) c.size (); return n; }
};
struct FC { int tree; Leaf l; const Col *c; };
static std::vector<FC> fcols (const Sheet & s) { std::vector<FC> v; for (int t = 0; t < (int) s.f.t.size (); ++t) for (size_t i = 0; i < s.f.t[t].size (); ++i) v.push_back ({ t, s.f.t[t][i], &s.lay[t][i] }); return v; }
static u64 mask (size_t ds, u64 tag) { return ds > 0 && ds < 8 ? tag & (((u64) 1 << (8 * ds)) - 1) : tag; }
static u64 lid (u64 seed, int t, const Leaf & l, i64 z, int lev) { return mix (mix (seed, mix ((u64) t, kh (l.key), (u64) l.level)), (u64) z, (u64) lev); }
static std::string ls (i64 z, int lev) { char b[64]; snprintf (b, sizeof b, "layer z %lld/%lld level %d", (long long) (z >> (ML - lev)), (long long) 1 << lev, lev); return b; }
static std::string cs (int t, const Leaf & l, i64 z, int lev) { return str (t, l) + " " + ls (z, lev); }

enum { K_RCOL, K_RLAY, K_CCOL, K_CLAY, K_BAL, K_PART, K_GIVEN, K_COPY, K_RESET, K_FILE, N_K };
static const char *kname[] = { "refine columns", "refine layers", "coarsen columns", "coarsen layers", "balance", "partition", "partition given", "copy", "reset", "save and load" };
struct POp {
  int kind = 0; u64 seed = 0; bool init = true, repl = false, rec = false, orphans = false, plain = false, pfc = false; int maxlevel = -1;
  Dec dec; CDec cdec;
  int ldens = 50, llmax = 3, lmod = 1; bool lfocus = false; i64 fz = 0; int lmin = 0;
  int btype = 2, maxd = 0, mind = 1;
  int wmode = 0; std::vector<int> frac; bool keepcopy = false, cdata = true, dup = false, sdata = true, spart = true, ldata = true, autop = false, bcast = false; size_t ds = 0;
  bool ldec (int t, const Leaf & l, i64 z, int lev) const {
    if (lev >= llmax || mix (seed + 11, mix ((u64) t, kh (l.key), (u64) l.level)) % lmod) return false;
    if (lfocus) return fz >= z && fz < z + qlen (lev);
    return (int) (lid (seed + 12, t, l, z, lev) % 100) < ldens; }
  bool lcdec (int t, const Leaf & l, i64 z, int lev) const { return lev >= lmin && (int) (lid (seed + 13, t, l, z, lev) % 100) < ldens; } /* the parent */
  u64 itag (int t, const Leaf & l, i64 z, int lev) const { return lid (seed + 1, t, l, z, lev); }
  u64 t2 (u64 a, u64 b) const { return mix (seed + 2, a, b); }
  int weight (int t, const Leaf & l, i64 z, int lev) const { return wmode == 2 ? 0 : wmode == 3 ? (int) (lid (seed, t, l, z, lev) % 1000000) : (int) (lid (seed, t, l, z, lev) % 4); }
  std::string text () const { std::string s = kname[kind]; char b[160]; b[0] = 0;
    switch (kind) { case K_RCOL: s += " " + dec.text (); break; case K_RLAY: snprintf (b, sizeof b, " %s d%d max %d mod %d", lfocus ? "focus" : "hash", ldens, llmax, lmod); break;
    case K_CCOL: snprintf (b, sizeof b, " d%d", cdec.density); break; case K_CLAY: snprintf (b, sizeof b, " d%d min %d", ldens, lmin); break;
    case K_BAL: snprintf (b, sizeof b, " %d%s max %d min %d", btype, plain ? "" : " ext", maxd, mind); break; case K_PART: snprintf (b, sizeof b, " weights %d%s", wmode, pfc ? " for coarsening" : ""); break;
    case K_GIVEN: snprintf (b, sizeof b, "%s", pfc ? " for coarsening" : ""); break; case K_FILE: snprintf (b, sizeof b, "%s%s%s", sdata ? " data" : "", spart ? " partition" : "", autop ? " auto" : ""); break; default: break; }
    s += b; if (rec) s += " rec"; if (maxlevel >= 0) s += " maxlevel " + std::to_string (maxlevel); if (kind <= K_BAL) s += std::string (init ? " init" : "") + (repl ? " replace" : ""); return s; }
};
struct Counts { i64 inits = 0, repls = 0; };
static Lay child_lay (const POp & op, size_t ds, int t, const Leaf & l, const Lay & p, int i, Counts & n) {
  Lay c { p.z + i * qlen (p.level + 1), p.level + 1, 0, true }; n.inits++; if (i == 0) n.repls++;
  if (op.repl) c.tag = mask (ds, op.t2 (p.tag, (u64) i)); else if (op.init) c.tag = mask (ds, op.itag (t, l, c.z, c.level)); else c.known = false;
  return c;
}
static Col child_col (const POp & op, size_t ds, int t, const Leaf & ch, const Col & p, int i, Counts & n) {
  Col r = p;
  for (auto & y : r) { n.inits++; if (i == 0) n.repls++; if (op.repl) y.tag = mask (ds, op.t2 (y.tag, 100 + (u64) i)); else if (op.init) y.tag = mask (ds, op.itag (t, ch, y.z, y.level)); else y.known = false; }
  return r;
}
static Lay join2 (const POp & op, size_t ds, int t, const Leaf & l, const Lay & a, const Lay & b, Counts & n) {
  Lay p { a.z, a.level - 1, 0, true }; n.inits++; n.repls++;
  if (op.repl) p.tag = mask (ds, mix (op.seed + 4, a.tag, b.tag)); else if (op.init) p.tag = mask (ds, op.itag (t, l, p.z, p.level)); else p.known = false;
  return p;
}
/* the layers of column c inside of [z, z + len) collapsed to one */
static Lay collapse (const POp & op, size_t ds, int t, const Leaf & l, const Col & c, i64 z, int lev, Counts & n) {
  size_t k = 0; while (c[k].z < z) ++k;
  if (c[k].level == lev) return c[k];
  Lay a = collapse (op, ds, t, l, c, z, lev + 1, n), b = collapse (op, ds, t, l, c, z + qlen (lev + 1), lev + 1, n);
  return join2 (op, ds, t, l, a, b, n);
}
static Col join4 (const POp & op, size_t ds, int t, const Leaf & par, const Col *c, Counts & n) {
  Col r; size_t k[4] = { 0, 0, 0, 0 };
  while (k[0] < c[0].size ()) {
    const Lay *m = &c[0][k[0]]; for (int i = 1; i < 4; ++i) if (c[i][k[i]].level < m->level) m = &c[i][k[i]];
    Lay p { m->z, m->level, 0, true }, q[4];
    for (int i = 0; i < 4; ++i) { q[i] = collapse (op, ds, t, par.child (i), c[i], p.z, p.level, n); while (k[i] < c[i].size () && c[i][k[i]].z < p.z + qlen (p.level)) ++k[i]; }
    n.inits++; n.repls++;
    if (op.repl) p.tag = mask (ds, mix (op.seed + 5, mix (q[0].tag, q[1].tag), mix (q[2].tag, q[3].tag))); else if (op.init) p.tag = mask (ds, op.itag (t, par, p.z, p.level)); else p.known = false;
    r.push_back (p);
  }
  return r;
}
/* column leaves of b are descendants or ancestors of those of a */
static Col derive (const POp & op, const Sheet & a, int t, const Leaf & l, Counts & n);
static Col derive_down (const POp & op, size_t ds, int t, const Leaf & from, const Col & c, const Leaf & to, std::map<std::pair<Key, int>, Col> & memo, Counts & n) {
  if (from.level == to.level) return c;
  auto it = memo.find ({ to.key, to.level }); if (it != memo.end ()) return it->second;
  Leaf p = to.parent (); Col pc = derive_down (op, ds, t, from, c, p, memo, n);
  for (int i = 0; i < NCH; ++i) memo[{ p.child (i).key, p.level + 1 }] = child_col (op, ds, t, p.child (i), pc, i, n);
  return memo[{ to.key, to.level }];
}
static Col derive_up (const POp & op, const Sheet & a, int t, const Leaf & l, Counts & n) {
  int i = a.f.find (t, l.key); const Leaf & o = a.f.t[t][i];
  if (o.level <= l.level) return a.lay[t][i];
  Col c[4]; for (int k = 0; k < 4; ++k) c[k] = derive_up (op, a, t, l.child (k), n);
  return join4 (op, a.dsize, t, l, c, n);
}
static void derive_all (const POp & op, const Sheet & a, Sheet & b, Counts & n) {
  b.lay.assign (b.f.t.size (), {});
  for (int t = 0; t < (int) b.f.t.size (); ++t) { std::map<std::pair<Key, int>, Col> memo;
    for (auto & l : b.f.t[t]) { int i = a.f.find (t, l.key); const Leaf & o = a.f.t[t][i];
      b.lay[t].push_back (o.level <= l.level ? derive_down (op, a.dsize, t, o, a.lay[t][i], l, memo, n) : derive_up (op, a, t, l, n)); } }
}
/* refine one layer until decide says no */
static void split_lay (const POp & op, size_t ds, int t, const Leaf & l, const Lay & y, bool rec, int maxl, const std::function<bool (const Lay &)> & decide, Col & out, Counts & n) {
  if (y.level < maxl && decide (y)) for (int i = 0; i < 2; ++i) { Lay c = child_lay (op, ds, t, l, y, i, n); if (rec) split_lay (op, ds, t, l, c, rec, maxl, decide, out, n); else out.push_back (c); }
  else out.push_back (y);
}
static Col coarsen_lay (const POp & op, size_t ds, int t, const Leaf & l, const Col & c, bool rec, Counts & n) {
  Col st; bool fresh[2] = { false, false }; std::vector<bool> isnew; (void) fresh;
  for (auto & y : c) {
    st.push_back (y); isnew.push_back (false);
    while (st.size () >= 2) {
      Lay & a = st[st.size () - 2], & b = st.back ();
      if (a.level != b.level || a.level == 0 || (a.z & qlen (a.level)) || !(b.z & qlen (b.level))) break;
      if (!rec && (isnew[st.size () - 2] || isnew.back ())) break;
      if (!op.lcdec (t, l, a.z, a.level - 1)) break;
      Lay p = join2 (op, ds, t, l, a, b, n); st.pop_back (); st.pop_back (); isnew.pop_back (); isnew.pop_back (); st.push_back (p); isnew.push_back (true);
    }
  }
  return st;
}
static Cuts recut (const Sheet & a, const Sheet & b) {   /* same partition of space after refinement of columns */
  Cuts r; auto fa = flat (a.f); auto fb = flat (b.f); size_t k = 0;
  for (auto c : a.cuts) { if (c >= (i64) fa.size ()) { r.push_back ((i64) fb.size ()); continue; }
    while (k < fb.size () && (fb[k].tree < fa[c].tree || (fb[k].tree == fa[c].tree && fb[k].l.key < fa[c].l.key))) ++k; r.push_back ((i64) k); }
  return r;
}
static std::vector<i64> layer_offsets (const Sheet & s) { std::vector<i64> o (1, 0); for (auto & c : fcols (s)) o.push_back (o.back () + (i64) c.c->size ()); return o; }
/* minimal refinement of the layers that satisfies 2:1 */
struct Near { int j; bool touch; };     /* touch: contact at a single height counts */
static std::vector<std::vector<Near>> near_of (const Sheet & s, int btype) {
  Adj a = adjacency (s.f, btype == 0 ? 1 : 2); std::vector<std::vector<Near>> r (a.size ());
  for (size_t i = 0; i < a.size (); ++i) { r[i].push_back ({ (int) i, true }); for (auto & e : a[i]) r[i].push_back ({ e.first, e.second == 1 ? btype >= 1 : btype >= 2 }); }
  return r;
}
static bool meets (const Lay & a, const Lay & b, bool touch) { i64 a0 = a.z, a1 = a.z + qlen (a.level), b0 = b.z, b1 = b.z + qlen (b.level); return touch ? a0 <= b1 && b0 <= a1 : a0 < b1 && b0 < a1; }
static std::pair<int, Lay> vwhat;
static bool violated (const std::vector<Col> & c, const std::vector<std::vector<Near>> & nb, size_t i, const Lay & y) {
  for (auto & e : nb[i]) { const Col & o = c[e.j];
    auto it = std::lower_bound (o.begin (), o.end (), y.z, [] (const Lay & l, i64 z) { return l.z + qlen (l.level) < z; });
    for (; it != o.end () && it->z <= y.z + qlen (y.level); ++it) if (it->level > y.level + 1 && meets (y, *it, e.touch)) { vwhat = { e.j, *it }; return true; } }
  return false;
}
static bool closure (std::vector<Col> & c, const std::vector<std::vector<Near>> & nb, i64 cap) {
  for (bool any = true; any;) { any = false; i64 n = 0;
    for (size_t i = 0; i < c.size (); ++i) { Col r; bool ch = false;
      for (auto & y : c[i]) if (violated (c, nb, i, y)) { ch = true; for (int k = 0; k < 2; ++k) r.push_back ({ y.z + k * qlen (y.level + 1), y.level + 1, 0, false }); } else r.push_back (y);
      if (ch) { any = true; c[i] = r; } n += (i64) c[i].size (); }
    if (n > cap) return false; }
  return true;
}
/* ------------------------------------------------------------------- data */
static void put (p6est_t * p, p2est_quadrant_t * q, u64 tag) {
  if (!p->data_size) { q->p.user_long = (long) tag; return; }
  unsigned char *d = (unsigned char *) q->p.user_data; u64 m = mask (p->data_size, tag);
  for (size_t i = 0; i < p->data_size; ++i) d[i] = i < 8 ? (unsigned char) (m >> (8 * i)) : (unsigned char) mix (m, i);
}
static bool get (p6est_t * p, const p2est_quadrant_t * q, u64 & tag) {
  if (!p->data_size) { tag = (u64) q->p.user_long; return true; }
  const unsigned char *d = (const unsigned char *) q->p.user_data; tag = 0;
  for (size_t i = 0; i < p->data_size && i < 8; ++i) tag |= (u64) d[i] << (8 * i);
  for (size_t i = 8; i < p->data_size; ++i) if (d[i] != (unsigned char) mix (tag, i)) return false;
  return true;
}
/* ------------------------------------------------------------------ running */
struct Shared { Sheet M; Counts want, got; std::vector<std::vector<std::pair<GL, Col>>> gather; bool bad = false; };
struct PRun { Shared *sh; const POp *op = nullptr; int rank = 0; void *up = nullptr; size_t ds = 0; bool building = false; const Sheet *target = nullptr; };
static PRun *run_of (p6est_t * p) { PRun *r = (PRun *) p->user_pointer; CHECK (r && r->up == r, "user_pointer is not the one of the forest inside a callback"); CHECK (p->data_size == r->ds, "process %d: data size %zu in a callback, expected %zu", r->rank, p->data_size, r->ds); return r; }
static Lay lay_of (const p2est_quadrant_t * q) { return Lay { q->z, q->level, 0, true }; }
static void valid_lay (PRun * r, p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, const p2est_quadrant_t * q, const char *what) {
  CHECK (t >= 0 && t < p->connectivity->conn4->num_trees && p4est_quadrant_is_valid (c), "process %d: %s with an invalid column in tree %d", r->rank, what, (int) t);
  CHECK (q->level >= 0 && q->level <= QML && q->z >= 0 && q->z % qlen (q->level) == 0 && q->z + qlen (q->level) <= p->root_len, "process %d: %s with an invalid layer z %d level %d", r->rank, what, (int) q->z, (int) q->level);
}
static void cb_init (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * q) {
  PRun *r = run_of (p); valid_lay (r, p, t, c, q, "initialization"); r->sh->got.inits++;
  put (p, q, r->op->itag (t, leaf_of (c), q->z, q->level));
}
static int cb_rcol (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c) {
  PRun *r = run_of (p); Leaf l = leaf_of (c);
  if (r->building) { const Tree & T = r->target->f.t[t]; return T[r->target->f.find (t, l.key)].level > l.level; }
  size_t f, e; P6EST_COLUMN_GET_RANGE (c, &f, &e); CHECK (f < e && e <= p->layers->elem_count, "process %d: a column to decide on has layers %zu to %zu", r->rank, f, e);
  CHECK (p2est_quadrant_array_index (p->layers, f)->z == 0, "process %d: a column to decide on begins above the bottom", r->rank);
  return r->op->dec (t, l);
}
static int cb_rlay (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * q) {
  PRun *r = run_of (p); valid_lay (r, p, t, c, q, "refinement decision"); Leaf l = leaf_of (c);
  if (r->building) { for (auto & y : r->target->lay[t][r->target->f.find (t, l.key)]) if (y.level > q->level && y.z >= q->z && y.z < q->z + qlen (q->level)) return 1; return 0; }
  u64 tag; if (r->op->init || r->op->repl || !r->op->rec) CHECK (get (p, q, tag), "process %d: refinement decision on %s with damaged data", r->rank, cs (t, l, q->z, q->level).c_str ());
  return r->op->ldec (t, l, q->z, q->level);
}
static int cb_ccol (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c[]) {
  PRun *r = run_of (p);
  if (!c[1]) { CHECK (r->op->orphans, "process %d: column coarsening asked about an orphan", r->rank); return 1; }
  Leaf par = leaf_of (c[0]).parent ();
  for (int i = 0; i < 4; ++i) CHECK (leaf_of (c[i]) == par.child (i), "process %d: member %d of a family of columns is %s", r->rank, i, str (t, leaf_of (c[i])).c_str ());
  return r->op->cdec (t, par);
}
static int cb_clay (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * q[]) {
  PRun *r = run_of (p); Leaf l = leaf_of (c); valid_lay (r, p, t, c, q[0], "coarsening decision");
  if (!q[1]) { CHECK (r->op->orphans, "process %d: layer coarsening asked about an orphan", r->rank); return 1; }
  valid_lay (r, p, t, c, q[1], "coarsening decision");
  i64 h = qlen (q[0]->level);
  CHECK (q[0]->level > 0 && q[0]->level == q[1]->level && q[1]->z == q[0]->z + h && !(q[0]->z & h), "process %d: coarsening asked about %s and %s", r->rank, cs (t, l, q[0]->z, q[0]->level).c_str (), ls (q[1]->z, q[1]->level).c_str ());
  if (r->building) { for (auto & y : r->target->lay[t][r->target->f.find (t, l.key)]) if (y.level < q[0]->level && q[0]->z >= y.z && q[0]->z < y.z + qlen (y.level)) return 1; return 0; }
  u64 tag; if (r->op->init || r->op->repl || !r->op->rec) for (int i = 0; i < 2; ++i) CHECK (get (p, q[i], tag), "process %d: coarsening decision on %s with damaged data", r->rank, cs (t, l, q[i]->z, q[i]->level).c_str ());
  return r->op->lcdec (t, l, q[0]->z, q[0]->level - 1);
}
static void cb_repl (p6est_t * p, p4est_topidx_t t, int noc, int nol, p4est_quadrant_t * oc[], p2est_quadrant_t * ol[], int nic, int nil, p4est_quadrant_t * ic[], p2est_quadrant_t * il[]) {
  PRun *r = run_of (p); const POp & op = *r->op; r->sh->got.repls++;
  std::string ctx = "replacement in " + str (t, leaf_of (oc[0])) + " of " + ls (ol[0]->z, ol[0]->level);
  u64 tg[4];
  for (int i = 0; i < nol; ++i) { valid_lay (r, p, t, oc[noc == 1 ? 0 : i], ol[i], "replacement"); CHECK (get (p, ol[i], tg[i]), "process %d: %s: outgoing data %d is damaged", r->rank, ctx.c_str (), i); }
  for (int i = 0; i < nil; ++i) { const p4est_quadrant_t *c = ic[nic == 1 ? 0 : i]; valid_lay (r, p, t, (p4est_quadrant_t *) c, il[i], "replacement");
    u64 x; if (op.init) CHECK (get (p, il[i], x) && x == mask (p->data_size, op.itag (t, leaf_of (c), il[i]->z, il[i]->level)), "process %d: %s: incoming data %d is not initialized", r->rank, ctx.c_str (), i); }
  if (noc == 1 && nol == 1 && nic == 4 && nil == 4) {
    for (int i = 0; i < 4; ++i) { CHECK (leaf_of (ic[i]) == leaf_of (oc[0]).child (i), "process %d: %s: incoming column %d", r->rank, ctx.c_str (), i);
      CHECK (il[i]->z == ol[0]->z && il[i]->level == ol[0]->level, "process %d: %s: incoming layer %d is another one", r->rank, ctx.c_str (), i); put (p, il[i], op.t2 (tg[0], 100 + (u64) i)); } }
  else if (noc == 1 && nol == 1 && nic == 1 && nil == 2) {
    CHECK (leaf_of (ic[0]) == leaf_of (oc[0]), "process %d: %s: another column", r->rank, ctx.c_str ());
    for (int i = 0; i < 2; ++i) { CHECK (il[i]->level == ol[0]->level + 1 && il[i]->z == ol[0]->z + i * qlen (il[i]->level), "process %d: %s: incoming layer %d is %s", r->rank, ctx.c_str (), i, ls (il[i]->z, il[i]->level).c_str ()); put (p, il[i], op.t2 (tg[0], (u64) i)); } }
  else if (noc == 1 && nol == 2 && nic == 1 && nil == 1) {
    CHECK (leaf_of (ic[0]) == leaf_of (oc[0]), "process %d: %s: another column", r->rank, ctx.c_str ());
    for (int i = 0; i < 2; ++i) CHECK (ol[i]->level == il[0]->level + 1 && ol[i]->z == il[0]->z + i * qlen (ol[i]->level), "process %d: %s: the parent is %s", r->rank, ctx.c_str (), ls (il[0]->z, il[0]->level).c_str ());
    put (p, il[0], mix (op.seed + 4, tg[0], tg[1])); }
  else if (noc == 4 && nol == 4 && nic == 1 && nil == 1) {
    for (int i = 0; i < 4; ++i) { CHECK (leaf_of (oc[i]) == leaf_of (ic[0]).child (i), "process %d: %s: outgoing column %d", r->rank, ctx.c_str (), i);
      CHECK (ol[i]->z == il[0]->z && ol[i]->level == il[0]->level, "process %d: %s: outgoing layer %d is %s, incoming %s", r->rank, ctx.c_str (), i, ls (ol[i]->z, ol[i]->level).c_str (), ls (il[0]->z, il[0]->level).c_str ()); }
    put (p, il[0], mix (op.seed + 5, mix (tg[0], tg[1]), mix (tg[2], tg[3]))); }
  else CHECK (false, "process %d: %s: %d columns and %d layers become %d columns and %d layers", r->rank, ctx.c_str (), noc, nol, nic, nil);
}
static int cb_weight (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * q) { PRun *r = run_of (p); valid_lay (r, p, t, c, q, "weight"); return r->op->weight (t, leaf_of (c), q->z, q->level); }

/* compare this process' part; unknown data are written */
static void comparep (p6est_t * p, const Conn & conn, const Sheet & s, const char *ctx, int me) {
  CHECK (p->data_size == s.dsize && (p->user_data_pool != nullptr) == (s.dsize > 0), "%s: process %d: data size %zu, expected %zu, pool %p", ctx, me, p->data_size, s.dsize, (void *) p->user_data_pool);
  int P = (int) s.cuts.size () - 1;
  CHECK (p->mpisize == P && p->mpirank == me && p->columns->mpisize == P && p->columns->mpirank == me, "%s: process %d is %d of %d", ctx, me, p->mpirank, p->mpisize);
  CHECK (p->root_len == s.root, "%s: process %d: the height of the domain is %d, expected %lld", ctx, me, (int) p->root_len, (long long) s.root);
  CHECK (p->columns->connectivity == p->connectivity->conn4, "%s: process %d: columns on another connectivity", ctx, me);
  CHECK (p->columns->user_pointer == (void *) p, "%s: process %d: the columns do not refer to the forest", ctx, me);
  compare_as (p->columns, conn, s.f, s.cuts, false, ctx, me);
  auto off = layer_offsets (s); auto fc = fcols (s);
  for (int q = 0; q <= P; ++q) CHECK (p->global_first_layer[q] == off[s.cuts[q]], "%s: process %d: global_first_layer[%d] is %lld, expected %lld", ctx, me, q, (long long) p->global_first_layer[q], (long long) off[s.cuts[q]]);
  i64 n = off[s.cuts[me + 1]] - off[s.cuts[me]];
  CHECK ((i64) p->layers->elem_count == n, "%s: process %d has %zu layers, expected %lld", ctx, me, p->layers->elem_count, (long long) n);
  if (s.dsize) CHECK ((i64) p->user_data_pool->elem_count == n, "%s: process %d: %zu data elements are allocated for %lld layers", ctx, me, p->user_data_pool->elem_count, (long long) n);
  i64 k = s.cuts[me], l = 0;
  for (int t = p->columns->first_local_tree; t <= p->columns->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->columns->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z, ++k) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z); size_t f, e; P6EST_COLUMN_GET_RANGE (q, &f, &e);
      const Col & c = *fc[k].c; std::string w = str (t, fc[k].l);
      CHECK ((i64) f == l && e - f == c.size (), "%s: process %d: column %s refers to layers %zu to %zu, expected %lld to %lld", ctx, me, w.c_str (), f, e, (long long) l, (long long) (l + (i64) c.size ()));
      i64 at = 0;
      for (size_t j = 0; j < c.size (); ++j, ++l) {
        p2est_quadrant_t *y = p2est_quadrant_array_index (p->layers, (size_t) l);
        CHECK (y->z == at, "%s: process %d: column %s: layer %zu begins at %d and not at %lld", ctx, me, w.c_str (), j, (int) y->z, (long long) at);
        CHECK (y->z == c[j].z && y->level == c[j].level, "%s: process %d: column %s: layer %zu is %s, expected %s", ctx, me, w.c_str (), j, ls (y->z, y->level).c_str (), ls (c[j].z, c[j].level).c_str ());
        at += qlen (y->level);
        u64 tag = 0;
        if (c[j].known) CHECK (get (p, y, tag) && tag == c[j].tag, "%s: process %d: column %s: %s has the wrong data", ctx, me, w.c_str (), ls (y->z, y->level).c_str ());
        else put (p, y, c[j].tag);
      }
      CHECK (at == s.root, "%s: process %d: column %s ends at %lld of %lld", ctx, me, w.c_str (), (long long) at, (long long) s.root);
    }
  }
}
static void compare6 (p6est_t * p, const Conn & conn, const Sheet & s, const char *ctx) { comparep (p, conn, s, ctx, sim::rank ()); }
static void settle (Sheet & s, u64 seed) { /* data of unknown content get new tags that the comparison writes, and are known from then on */
  for (int t = 0; t < (int) s.lay.size (); ++t) for (size_t i = 0; i < s.lay[t].size (); ++i) for (auto & y : s.lay[t][i]) if (!y.known) y.tag = mask (s.dsize, lid (seed + 77, t, s.f.t[t][i], y.z, y.level)); }
static void known (Sheet & s) { for (auto & t : s.lay) for (auto & c : t) for (auto & y : c) y.known = true; }

/* ------------------------------------------------------------ ghosts and nodes */
static void check_pghost (p6est_t * p, const Sheet & s, p4est_connect_type_t bt, int expand, std::vector<std::vector<std::vector<i64>>> & mset) {
  int me = p->mpirank, P = p->mpisize; auto fc = fcols (s); auto off = layer_offsets (s);
  p6est_ghost_t *g = p6est_ghost_new (p, bt); p4est_ghost_t *c = p4est_ghost_new (p->columns, bt);
  for (int i = 0; i < expand; ++i) { p6est_ghost_expand (p, g); p4est_ghost_expand (p->columns, c); }
  p4est_ghost_t *cg = g->column_ghost;
  CHECK (g->mpisize == P && g->num_trees == s.f.conn->nt && g->btype == bt, "process %d: layer ghosts have other properties", me);
  size_t nc = c->ghosts.elem_count;
  CHECK (cg->ghosts.elem_count == nc && cg->mirrors.elem_count == c->mirrors.elem_count, "process %d: %zu ghost columns, expected %zu", me, cg->ghosts.elem_count, nc);
  i64 at = 0; std::map<std::pair<int, Leaf>, i64> idx; for (size_t i = 0; i < fc.size (); ++i) idx[{ fc[i].tree, fc[i].l }] = (i64) i;
  CHECK (g->column_layer_offsets->elem_count == nc + 1, "process %d: %zu offsets of ghost columns", me, g->column_layer_offsets->elem_count);
  auto clo = [&] (size_t i) { return (i64) *(p4est_locidx_t *) sc_array_index (g->column_layer_offsets, i); };
  for (size_t i = 0; i < nc; ++i) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (&c->ghosts, i); CHECK (p4est_quadrant_is_equal_piggy (q, p4est_quadrant_array_index (&cg->ghosts, i)), "process %d: ghost column %zu is another one", me, i);
    auto it = idx.find ({ (int) q->p.piggy3.which_tree, leaf_of (q) }); CHECK (it != idx.end (), "process %d: ghost column %zu is not in the forest", me, i);
    const Col & y = *fc[it->second].c; int own = owner_of (s.cuts, it->second); i64 base = off[it->second] - off[s.cuts[own]];
    CHECK (clo (i) == at, "process %d: layers of ghost column %zu begin at %lld, expected %lld", me, i, (long long) clo (i), (long long) at);
    for (size_t j = 0; j < y.size (); ++j, ++at) { CHECK (at < (i64) g->ghosts.elem_count, "process %d: ghost layers are missing", me);
      p2est_quadrant_t *v = p2est_quadrant_array_index (&g->ghosts, (size_t) at);
      CHECK (v->z == y[j].z && v->level == y[j].level && v->p.piggy3.which_tree == q->p.piggy3.which_tree && v->p.piggy3.local_num == base + (i64) j,
        "process %d: ghost layer %lld is %s with tree %d number %d, expected %s tree %d number %lld", me, (long long) at, ls (v->z, v->level).c_str (), (int) v->p.piggy3.which_tree, (int) v->p.piggy3.local_num, ls (y[j].z, y[j].level).c_str (), (int) q->p.piggy3.which_tree, (long long) (base + (i64) j)); } }
  CHECK (clo (nc) == at && (i64) g->ghosts.elem_count == at, "process %d: %zu ghost layers, expected %lld", me, g->ghosts.elem_count, (long long) at);
  for (int t = 0; t <= g->num_trees; ++t) CHECK (g->tree_offsets[t] == clo ((size_t) c->tree_offsets[t]), "process %d: ghost layers of tree %d begin at %d, expected %lld", me, t, (int) g->tree_offsets[t], (long long) clo ((size_t) c->tree_offsets[t]));
  for (int q = 0; q <= P; ++q) CHECK (g->proc_offsets[q] == clo ((size_t) c->proc_offsets[q]), "process %d: ghost layers of process %d begin at %d, expected %lld", me, q, (int) g->proc_offsets[q], (long long) clo ((size_t) c->proc_offsets[q]));
  /* mirrors: all layers of the mirror columns */
  std::vector<i64> want; std::vector<int> wtree; std::vector<std::vector<i64>> cm;
  for (size_t i = 0; i < c->mirrors.elem_count; ++i) { p4est_quadrant_t *q = p4est_quadrant_array_index (&c->mirrors, i); i64 k = s.cuts[me] + q->p.piggy3.local_num; cm.emplace_back ();
    for (i64 l = off[k]; l < off[k + 1]; ++l) { cm.back ().push_back ((i64) want.size ()); want.push_back (l - off[s.cuts[me]]); wtree.push_back ((int) q->p.piggy3.which_tree); } }
  CHECK (g->mirrors.elem_count == want.size (), "process %d: %zu mirror layers, expected %zu", me, g->mirrors.elem_count, want.size ());
  for (size_t i = 0; i < want.size (); ++i) { p2est_quadrant_t *v = p2est_quadrant_array_index (&g->mirrors, i), *o = p2est_quadrant_array_index (p->layers, (size_t) want[i]);
    CHECK (v->p.piggy3.local_num == want[i] && v->p.piggy3.which_tree == wtree[i] && v->z == o->z && v->level == o->level, "process %d: mirror layer %zu is number %d of tree %d, expected %lld of tree %d", me, i, (int) v->p.piggy3.local_num, (int) v->p.piggy3.which_tree, (long long) want[i], wtree[i]); }
  for (int t = 0; t <= g->num_trees; ++t) { i64 w = 0; while (w < (i64) want.size () && wtree[w] < t) ++w; CHECK (g->mirror_tree_offsets[t] == w, "process %d: mirror layers of tree %d begin at %d, expected %lld", me, t, (int) g->mirror_tree_offsets[t], (long long) w); }
  CHECK (g->mirror_proc_offsets[0] == 0, "process %d: mirror_proc_offsets", me);
  for (int q = 0; q < P; ++q) {
    std::vector<i64> w, h, wf, hf;
    for (int k = c->mirror_proc_offsets[q]; k < c->mirror_proc_offsets[q + 1]; ++k) for (auto x : cm[c->mirror_proc_mirrors[k]]) w.push_back (x);
    for (int k = g->mirror_proc_offsets[q]; k < g->mirror_proc_offsets[q + 1]; ++k) h.push_back (g->mirror_proc_mirrors[k]);
    CHECK (h == w, "process %d: %zu mirror layers for process %d, expected %zu or others", me, h.size (), q, w.size ());
    if (c->mirror_proc_front_offsets) { for (int k = c->mirror_proc_front_offsets[q]; k < c->mirror_proc_front_offsets[q + 1]; ++k) for (auto x : cm[c->mirror_proc_fronts[k]]) wf.push_back (x); } else wf = w;
    for (int k = g->mirror_proc_front_offsets[q]; k < g->mirror_proc_front_offsets[q + 1]; ++k) hf.push_back (g->mirror_proc_fronts[k]);
    std::sort (hf.begin (), hf.end ()); std::sort (wf.begin (), wf.end ());
    CHECK (hf == wf, "process %d: %zu front mirror layers for process %d, expected %zu or others", me, hf.size (), q, wf.size ());
  }
  (void) mset;
  p4est_ghost_destroy (c); p6est_ghost_destroy (g);
}
struct NodeTable { std::map<i64, std::vector<i64>> cols; std::map<std::pair<i64, i64>, i64> id; std::map<i64, std::pair<i64, i64>> back; std::map<i64, std::pair<int, i64>> owner; std::vector<std::vector<i64>> shared; std::map<i64, i64> label; i64 nglobal = 0, owned = 0; std::set<i64> labels; };
static void check_pnodes (p6est_t * p, const Sheet & s, int degree, bool labels, NodeTable & T) {
  int me = p->mpirank; auto fc = fcols (s); int d2 = std::max (2, degree), N2 = d2 + 1, Nf = N2 * N2, N = degree + 1;
  p6est_ghost_t *g = p6est_ghost_new (p, P4EST_CONNECT_FULL);
  p4est_lnodes_t *c = p4est_lnodes_new (p->columns, g->column_ghost, d2);
  auto gid2 = [&] (i64 k) { return (i64) p4est_lnodes_global_index (c, (p4est_locidx_t) k); };
  for (i64 e = 0; e < c->num_local_elements; ++e) for (int i = 0; i < Nf; ++i) T.cols[gid2 (c->element_nodes[e * Nf + i])].push_back (s.cuts[me] + e);
  sim::host_barrier ();
  p6est_lnodes_t *n = p6est_lnodes_new (p, g, degree); i64 nl = (i64) p->layers->elem_count;
  CHECK (n->degree == degree && n->vnodes == N * N * N && n->num_local_elements == nl, "process %d: nodes of degree %d, %d per element, %d elements", me, n->degree, n->vnodes, (int) n->num_local_elements);
  std::vector<i64> key2 (n->num_local_nodes, -1), keyz (n->num_local_nodes, 0); i64 l = 0;
  for (i64 e = 0; e < c->num_local_elements; ++e) { const FC & F = fc[s.cuts[me] + e]; int hf4[4] = { -1, -1, -1, -1 }; p4est_lnodes_decode (c->face_code[e], hf4);
    for (size_t j = 0; j < F.c->size (); ++j, ++l) { const Lay & y = (*F.c)[j]; int h = (y.z & qlen (y.level)) ? 1 : 0;
      auto coarse = [&] (i64 gn) { bool r = false; for (i64 o : T.cols[gn]) { const Col & C = *fc[o].c; auto it = std::upper_bound (C.begin (), C.end (), y.z, [] (i64 z, const Lay & b) { return z < b.z; }); --it; if (it->level < y.level) { CHECK (it->level == y.level - 1, "process %d: the forest is not balanced for nodes at %s", me, cs (F.tree, F.l, y.z, y.level).c_str ()); r = true; } } return r; };
      bool w[4], cc[4];
      for (int f = 0; f < 4; ++f) { int i = f == 0 ? 0 : f == 1 ? d2 : 1, k = f == 2 ? 0 : f == 3 ? d2 : 1; w[f] = coarse (gid2 (c->element_nodes[e * Nf + k * N2 + i])); }
      for (int q = 0; q < 4; ++q) cc[q] = coarse (gid2 (c->element_nodes[e * Nf + ((q >> 1) ? d2 : 0) * N2 + ((q & 1) ? d2 : 0)]));
      for (int b = 0; b < N; ++b) for (int a = 0; a < N; ++a) {
        int a2 = degree == 1 ? a * 2 : a, b2 = degree == 1 ? b * 2 : b; i64 g2 = gid2 (c->element_nodes[e * Nf + b2 * N2 + a2]);
        bool co = coarse (g2); i64 z0 = co ? y.z & ~qlen (y.level) : y.z, len = co ? 2 * qlen (y.level) : qlen (y.level);
        for (int i = 0; i < N; ++i) {
          i64 k = n->element_nodes[l * n->vnodes + (b * N + a) * N + i]; i64 kz = z0 * degree + i * len;
          CHECK (k >= 0 && k < n->num_local_nodes, "process %d: %s: node %d %d %d is %lld", me, cs (F.tree, F.l, y.z, y.level).c_str (), i, a, b, (long long) k);
          if (key2[k] < 0) { key2[k] = g2; keyz[k] = kz; }
          CHECK (key2[k] == g2 && keyz[k] == kz, "process %d: %s: node %d %d %d has a number that another position has, too", me, cs (F.tree, F.l, y.z, y.level).c_str (), i, a, b);
          i64 gi = p6est_lnodes_global_index (n, (p4est_locidx_t) k);
          auto in = T.id.insert ({ { g2, kz }, gi }); CHECK (in.first->second == gi, "process %d: %s: node %d %d %d has global number %lld and also %lld", me, cs (F.tree, F.l, y.z, y.level).c_str (), i, a, b, (long long) gi, (long long) in.first->second);
          auto ib = T.back.insert ({ gi, { g2, kz } }); CHECK (ib.first->second == std::make_pair (g2, kz), "process %d: global node %lld is at two positions", me, (long long) gi);
        }
      }
      /* hanging faces and edges */
      bool hang = false; for (int f = 0; f < 4; ++f) hang = hang || w[f] || hf4[f] >= 0 || cc[f];
      int wf[6], we[12], gf[6], ge[12]; for (int i = 0; i < 6; ++i) { wf[i] = -1; gf[i] = -9; } for (int i = 0; i < 12; ++i) { we[i] = -1; ge[i] = -9; }
      for (int f = 0; f < 4; ++f) { wf[f + 2] = hf4[f] >= 0 ? (w[f] ? hf4[f] * 2 + h : 4 + hf4[f]) : w[f] ? 6 + h : -1;
        for (int top = 0; top < 2; ++top) { int E = p8est_face_edges[f + 2][2 + top]; we[E] = w[f] && top != h ? 4 : hf4[f] >= 0 ? 2 + hf4[f] : -1; } }
      for (int q = 0; q < 4; ++q) { int fx = q & 1, fy = 2 + (q >> 1); bool mid = (hf4[fx] >= 0 && hf4[fx] != (q >> 1)) || (hf4[fy] >= 0 && hf4[fy] != (q & 1));
        we[q] = mid ? 4 : w[fx] || w[fy] ? 2 + h : cc[q] ? h : -1; }
      int ret = p6est_lnodes_decode (n->face_code[l], gf, ge);
      CHECK (!ret == !hang, "process %d: %s: hanging is %d, expected %d", me, cs (F.tree, F.l, y.z, y.level).c_str (), ret, hang);
      if (hang) { for (int i = 0; i < 6; ++i) CHECK (gf[i] == wf[i], "process %d: %s: hanging face %d is %d, expected %d (code %x)", me, cs (F.tree, F.l, y.z, y.level).c_str (), i, gf[i], wf[i], (unsigned) n->face_code[l]);
        for (int i = 0; i < 12; ++i) CHECK (ge[i] == we[i], "process %d: %s: hanging edge %d is %d, expected %d (code %x)", me, cs (F.tree, F.l, y.z, y.level).c_str (), i, ge[i], we[i], (unsigned) n->face_code[l]); }
    } }
  sim::host_barrier ();
  /* ownership: with the column of the node */
  i64 first = n->global_offset; T.owned += n->owned_count;
  for (i64 k = 0; k < n->num_local_nodes; ++k) { i64 gi = p6est_lnodes_global_index (n, (p4est_locidx_t) k);
    auto it = T.back.find (gi); CHECK (it != T.back.end (), "process %d: node %lld with global number %lld is used by no element", me, (long long) k, (long long) gi);
    bool mine = k < n->owned_count; CHECK (mine == (gi >= first && gi < first + n->owned_count), "process %d: local node %lld has global number %lld of owned range %lld to %lld", me, (long long) k, (long long) gi, (long long) first, (long long) (first + n->owned_count));
    CHECK (mine == (it->second.first >= c->global_offset && it->second.first < c->global_offset + c->owned_count), "process %d: ownership of node %lld differs from the one of its column", me, (long long) gi);
    if (k > n->owned_count) CHECK (n->nonlocal_nodes[k - n->owned_count] > n->nonlocal_nodes[k - n->owned_count - 1], "process %d: nonlocal nodes are not ascending", me); }
  i64 sum = 0; for (int q = 0; q < p->mpisize; ++q) { if (q == me) CHECK (sum == first && n->global_owned_count[q] == n->owned_count, "process %d: global offset %lld, expected %lld", me, (long long) first, (long long) sum); sum += n->global_owned_count[q]; }
  CHECK (sum == (i64) T.back.size (), "process %d: %lld nodes are owned, %zu exist", me, (long long) sum, T.back.size ());
  /* sharers: those of the columns */
  std::map<int, std::set<i64>> want;
  std::set<i64> locals; for (i64 k = 0; k < n->num_local_nodes; ++k) locals.insert (p6est_lnodes_global_index (n, (p4est_locidx_t) k));
  for (size_t i = 0; i < c->sharers->elem_count; ++i) { p4est_lnodes_rank_t *r = p4est_lnodes_rank_array_index (c->sharers, i); std::set<i64> cols2; for (size_t j = 0; j < r->shared_nodes.elem_count; ++j) cols2.insert (gid2 (*(p4est_locidx_t *) sc_array_index (&r->shared_nodes, j)));
    for (auto gi : locals) if (cols2.count (T.back[gi].first)) want[r->rank].insert (gi); }
  int prev = -1; std::map<int, std::set<i64>> have;
  for (size_t i = 0; i < n->sharers->elem_count; ++i) { p6est_lnodes_rank_t *r = p6est_lnodes_rank_array_index (n->sharers, i);
    CHECK (r->rank > prev, "process %d: sharers are not ascending", me); prev = r->rank; i64 last = -1, mine = 0, firstmine = -1, theirs = 0, tfirst = -1;
    for (size_t j = 0; j < r->shared_nodes.elem_count; ++j) { i64 k = *(p4est_locidx_t *) sc_array_index (&r->shared_nodes, j); CHECK (k >= 0 && k < n->num_local_nodes, "process %d: shared node %lld", me, (long long) k);
      i64 gi = p6est_lnodes_global_index (n, (p4est_locidx_t) k); CHECK (gi > last, "process %d: nodes shared with %d are not in the order of their global numbers", me, r->rank); last = gi; have[r->rank].insert (gi);
      if (k < n->owned_count) { mine++; if (firstmine < 0) firstmine = (i64) j; } }
    CHECK (r->shared_mine_count == mine && (!mine || r->shared_mine_offset == firstmine), "process %d: sharer %d: %d nodes of mine from %d, expected %lld from %lld", me, r->rank, (int) r->shared_mine_count, (int) r->shared_mine_offset, (long long) mine, (long long) firstmine);
    i64 o = 0; for (int q = 0; q < r->rank; ++q) o += n->global_owned_count[q];
    for (i64 k = 0; k < n->num_local_nodes; ++k) { i64 gi = p6est_lnodes_global_index (n, (p4est_locidx_t) k); if (gi >= o && gi < o + n->global_owned_count[r->rank]) { theirs++; if (tfirst < 0) tfirst = k; } }
    CHECK (r->owned_count == theirs && (!theirs || r->owned_offset == tfirst), "process %d: sharer %d owns %d nodes from %d, expected %lld from %lld", me, r->rank, (int) r->owned_count, (int) r->owned_offset, (long long) theirs, (long long) tfirst); }
  for (auto & e : want) if (e.second.size ()) CHECK (have[e.first] == e.second, "process %d: %zu nodes are shared with process %d, expected %zu or others", me, have[e.first].size (), e.first, e.second.size ());
  for (auto & e : have) if (e.second.size ()) CHECK (want[e.first] == e.second, "process %d: %zu nodes are shared with process %d, expected %zu or others", me, e.second.size (), e.first, want[e.first].size ());
  /* data exchange */
  { sc_array_t *a = sc_array_new_count (sizeof (i64), (size_t) n->num_local_nodes); i64 *v = (i64 *) a->array;
    for (i64 k = 0; k < n->num_local_nodes; ++k) v[k] = k < n->owned_count ? 7 * (first + k) + 1 : -1;
    p6est_lnodes_share_owned (a, n);
    for (i64 k = 0; k < n->num_local_nodes; ++k) CHECK (v[k] == 7 * (i64) p6est_lnodes_global_index (n, (p4est_locidx_t) k) + 1, "process %d: shared data of node %lld is wrong", me, (long long) k);
    /* in two halves, the second one of all values */
    for (i64 k = 0; k < n->num_local_nodes; ++k) v[k] = k < n->owned_count ? 5 * (first + k) + 2 : -1;
    p6est_lnodes_buffer_t *ob = p6est_lnodes_share_owned_begin (a, n); p6est_lnodes_share_owned_end (ob);
    for (i64 k = 0; k < n->num_local_nodes; ++k) CHECK (v[k] == 5 * (i64) p6est_lnodes_global_index (n, (p4est_locidx_t) k) + 2, "process %d: shared data of node %lld is wrong after two halves", me, (long long) k);
    p6est_lnodes_buffer_destroy (ob);
    auto val = [&] (int q, i64 k) { return 1000003 * (i64) q + 3 * (i64) p6est_lnodes_global_index (n, (p4est_locidx_t) k); };
    for (int two = 0; two < 2; ++two) {
      for (i64 k = 0; k < n->num_local_nodes; ++k) v[k] = val (me, k) + two;
      p6est_lnodes_buffer_t *ab; if (two) { ab = p6est_lnodes_share_all_begin (a, n); for (i64 k = 0; k < n->num_local_nodes; ++k) v[k] = -2; p6est_lnodes_share_all_end (ab); } else ab = p6est_lnodes_share_all (a, n);
      CHECK (ab->recv_buffers->elem_count == n->sharers->elem_count, "process %d: %zu receive buffers for %zu sharers", me, ab->recv_buffers->elem_count, n->sharers->elem_count);
      for (size_t i = 0; i < n->sharers->elem_count; ++i) { p6est_lnodes_rank_t *r = p6est_lnodes_rank_array_index (n->sharers, i); sc_array_t *rb = (sc_array_t *) sc_array_index (ab->recv_buffers, i);
        if (r->rank == me) continue;
        CHECK (rb->elem_count == r->shared_nodes.elem_count && rb->elem_size == sizeof (i64), "process %d: the receive buffer of sharer %d has %zu entries for %zu nodes", me, r->rank, rb->elem_count, r->shared_nodes.elem_count);
        for (size_t j = 0; j < rb->elem_count; ++j) { i64 got = *(i64 *) sc_array_index (rb, j), k = *(p4est_locidx_t *) sc_array_index (&r->shared_nodes, j);
          CHECK (got == val (r->rank, k) + two, "process %d: value of process %d for shared node %lld is %lld, expected %lld", me, r->rank, (long long) k, (long long) got, (long long) (val (r->rank, k) + two)); } }
      p6est_lnodes_buffer_destroy (ab); }
    sc_array_destroy (a); }
  if (labels) {
    p4est_gloidx_t *lab = p6est_lnodes_get_column_labels (p, n);
    for (i64 k = 0; k < n->owned_count; ++k) { i64 g2 = T.back[first + k].first; auto it = T.label.insert ({ g2, (i64) lab[k] }); if (it.second) CHECK (T.labels.insert ((i64) lab[k]).second, "process %d: two node columns have label %lld", me, (long long) lab[k]);
      CHECK (it.first->second == (i64) lab[k], "process %d: nodes of one column have labels %lld and %lld", me, (long long) lab[k], (long long) it.first->second); }
    P4EST_FREE (lab); sim::host_barrier ();
    if (T.labels.size ()) CHECK (*T.labels.begin () == 0 && *T.labels.rbegin () == (i64) T.labels.size () - 1, "the %zu labels of node columns are %lld to %lld", T.labels.size (), (long long) *T.labels.begin (), (long long) *T.labels.rbegin ());
  }
  p6est_lnodes_destroy (n); p4est_lnodes_destroy (c); p6est_ghost_destroy (g);
}
/* -------------------------------------------------------------------- prop */
static p6est_t *build_sheet (p6est_connectivity_t * c6, const Sheet & s, PRun & r) {
  int lz = 0; while ((1 << lz) < s.zroot) ++lz;
  r.building = true; r.target = &s; r.ds = s.dsize;
  p6est_t *p = p6est_new_ext (sc_MPI_COMM_WORLD, c6, 0, 0, lz, s.zroot, 1, s.dsize, nullptr, &r);
  p6est_refine_columns (p, 1, cb_rcol, nullptr); p6est_refine_layers (p, 1, cb_rlay, nullptr); p6est_coarsen_layers (p, 1, cb_clay, nullptr);
  r.building = false;
  auto off = layer_offsets (s); std::vector<p4est_locidx_t> cnt; for (size_t q = 0; q + 1 < s.cuts.size (); ++q) cnt.push_back ((p4est_locidx_t) (off[s.cuts[q + 1]] - off[s.cuts[q]]));
  p6est_partition_given (p, cnt.data ());
  return p;
}
static void draw_op (POp & op, int kind, const Conn & conn) {
  op.kind = kind; op.seed = draw64 (); op.init = chance (70); op.repl = chance (45); op.rec = chance (45); op.plain = chance (25); op.orphans = chance (30);
  op.dec = draw_refine_dec (conn, 8); op.cdec = draw_coarsen_dec ();
  op.ldens = (int[]) { 50, 100, 20, 80 }[draw (4)]; op.llmax = chance (85) ? range (1, 5) : range (6, 30); op.lmod = (int[]) { 1, 2, 4, 9 }[draw (4)]; op.lfocus = op.llmax > 5 || chance (30); op.fz = (i64) draw (RL); if (chance (30)) op.fz = RL - 1; op.lmin = chance (60) ? 0 : range (0, 4);
  if (chance (30)) op.maxlevel = range (0, 5);
  if (kind == K_CCOL || kind == K_CLAY || op.plain) op.maxlevel = -1;
  if (op.plain) { op.repl = false; op.orphans = false; }
  op.btype = weighted ({ 40, 25, 35 }); if (!op.plain && chance (40)) { op.mind = range (-3, 2); op.maxd = op.mind + range (0, 3); } 
  op.wmode = weighted ({ 40, 40, 10, 10 }); op.pfc = chance (35); for (int i = 0; i < 16; ++i) op.frac.push_back ((int) draw (1001));
  op.keepcopy = draw (2); op.cdata = chance (70); op.dup = chance (30); op.sdata = chance (70); op.spart = chance (60); op.ldata = chance (70); op.autop = chance (30); op.bcast = chance (30);
  static const size_t sz[] = { 8, 0, 1, 4, 24, 13 }; op.ds = sz[draw (6)];
}
void prop () {
  Conn conn = draw_conn (thorough () ? 24 : 12, true); sim::Config cfg = draw_sim (9); int P = cfg.P;
  static const size_t sz[] = { 8, 0, 1, 4, 24, 13 }; size_t ds0 = sz[draw (6)];
  static const int zr[] = { 1, 1, 2, 3, 4, 5, 6, 7 }; int zroot = zr[draw (8)], minz = chance (15) ? -range (0, 2) : range (0, 3), minl = chance (15) ? -1 : range (0, 2), minq = chance (30) ? range (1, 12) : 0; bool fill = chance (75), from = chance (30), plainnew = chance (10), ninit = chance (75);
  if (from) zroot = 1; if (plainnew) { zroot = 1; minz = 0; minl = 0; minq = 0; fill = true; }
  if (from) minz = std::max (minz, 0);
  int lz = 0; while ((1 << lz) < zroot) ++lz;
  int zl = std::max (minz, lz); i64 qpc = ((i64) 1 << (zl - lz)) * zroot, cap = thorough () ? 4000 : 1200;
  POp nop; nop.seed = draw64 (); nop.init = ninit;
  /* the first forest */
  Sheet M; M.f.conn = &conn; M.zroot = zroot; M.root = (i64) zroot * qlen (lz); M.dsize = ds0;
  Built fb; int lo = 0, hi = 0;
  if (from) { BuildOpts o; fb.conn = conn; (void) o; State st; History h; h.conn = conn; h.new_level = std::max (minl, 0); h.fill = true; h.cfg.P = P; fb.forest = uniform (&fb.conn, std::max (minl, 0), [] (int, const Leaf &) { return (u64) 0; });
    Dec d = draw_refine_dec (conn, 6); refine_capped (fb.forest, d, true, QML, 150, [] (int, const Leaf &) { return (u64) 0; }); fb.cuts = draw_cuts (fb.forest.count (), P); fb.cfg = cfg; fb.leaves = flat (fb.forest); M.f = fb.forest; M.f.conn = &conn; M.cuts = fb.cuts; }
  else {
    i64 nt = conn.nt, per = 1; int lev = 0; while (per * nt * qpc < (i64) P * minq || (per * nt / P) * qpc < minq) { per *= NCH; ++lev; } lo = std::max (lev, minl);
    per = 1; lev = 0; while (per * nt < (i64) P * ((minq + qpc - 1) / qpc)) { per *= NCH; ++lev; } hi = std::max (lev, minl); if (lo < 0) lo = 0; if (hi < 0) hi = 0; if (lo > hi) hi = lo;
    if ((nt << (2 * hi)) * qpc > cap) discard ();
    History h; h.conn = conn; h.new_level = hi; h.fill = fill; h.new_init = false; State st = new_state (h, P); M.f = st.f; M.f.conn = &conn; M.cuts = st.cuts;
  }
  auto fill_layers = [&] (Sheet & s) { s.lay.assign (s.f.t.size (), {}); for (int t = 0; t < (int) s.f.t.size (); ++t) for (auto & l : s.f.t[t]) { Col c; for (i64 i = 0; i < qpc; ++i) { i64 z = i * qlen (zl); c.push_back ({ z, zl, mask (s.dsize, nop.itag (t, l, z, zl)), ninit }); } s.lay[t].push_back (c); } };
  fill_layers (M);
  if (M.nlay () > 2 * cap) discard ();
  /* operations */
  static const int w[N_K] = { 20, 24, 10, 14, 14, 14, 8, 6, 5, 9 };
  int nops = range (1, thorough () ? 8 : 6); std::vector<POp> ops;
  for (int i = 0; i < nops; ++i) { int tot = 0; for (int k : w) tot += k; int v = (int) draw (tot), k = 0; while (v >= w[k]) v -= w[k++]; POp op; draw_op (op, k, conn); ops.push_back (op); }
  bool doghost = chance (50), dolnodes = chance (50), labels = chance (50), doreduce = chance (25); int gx = weighted ({ 60, 25, 15 }), deg = weighted ({ 30, 40, 20, 10 }) + 1; p4est_connect_type_t gbt = chance (50) ? P4EST_CONNECT_FULL : P4EST_CONNECT_FACE;
  if (dolnodes) { POp op; draw_op (op, K_BAL, conn); op.btype = 2; op.plain = true; op.repl = false; op.mind = 1; op.maxd = 0; ops.push_back (op); }
  bool topv = chance (40); double hgt[3] = { (double) range (-3, 3), 0.5 * range (-3, 3), 1. + (double) range (0, 3) }; std::vector<double> tv; for (size_t i = 0; i < conn.vertices.size (); ++i) tv.push_back (conn.vertices[i] + (i % 3 == 2 ? 2. : 0.25 * (double) (mix (nop.seed, i) % 5)));
  Cuts c2; sim::Config cfg2; bool second = chance (45); if (second) { cfg2 = draw_sim (9); for (int q = 0; q <= cfg2.P; ++q) c2.push_back (q == 0 ? 0 : q == cfg2.P ? 1000 : (i64) draw (1001)); std::sort (c2.begin (), c2.end ()); }
  std::string txt; for (auto & op : ops) { txt += " | " + op.text (); }
  describe ("%s, %d trees, %d processes, data %zu, %s zroot %d minz %d minl %d minq %d%s%s%s%s%s; ", conn.name.c_str (), conn.nt, P, ds0, from ? "from p4est" : plainnew ? "new" : "new_ext", zroot, minz, minl, minq, fill ? "" : " coarse", txt.c_str (), doghost ? " | ghost" : "", dolnodes ? " | nodes" : "", doreduce ? " | reduce" : "");
  if (P > 1) nontrivial ();
  Shared sh; sh.gather.resize (P); sh.M = M; Sheet start = M; Sheet pre, post; int balop = -1; std::string file0; unsigned crc = 0, crc2 = 0; bool balanced2 = false;
  MemMark mark = mem_mark (); sim::Report rep; int applied = 0; NodeTable NT; std::vector<std::vector<std::vector<i64>>> ms; int real_level = hi; std::set<std::string> labs;
  sim::run (cfg, [&] (int me) {
    PRun R; R.sh = &sh; R.rank = me; R.up = &R; R.ds = ds0; R.op = &nop; p6est_t *p = nullptr; p6est_connectivity_t *c6 = nullptr; std::vector<p6est_connectivity_t *> old;
    if (from) { p4est_t *q = build (fb); p4est_connectivity_t *cc = q->connectivity;
      p = p6est_new_from_p4est (q, topv ? tv.data () : nullptr, hgt, minz, ds0, ninit ? cb_init : nullptr, &R); c6 = p->connectivity; p4est_destroy (q); p4est_connectivity_destroy (cc);
      CHECK (p->columns->user_pointer == (void *) p || true, "-"); }
    else { p4est_connectivity_t *cc = conn.make (); c6 = p6est_connectivity_new (cc, topv ? tv.data () : nullptr, hgt); p4est_connectivity_destroy (cc);
      p = plainnew ? p6est_new (sc_MPI_COMM_WORLD, c6, ds0, ninit ? cb_init : nullptr, &R) : p6est_new_ext (sc_MPI_COMM_WORLD, c6, minq, minl, minz, zroot, fill, ds0, ninit ? cb_init : nullptr, &R);
      if (lo < hi && me == 0) { /* the minimum per process leaves a choice */ int got = -1; for (int t = p->columns->first_local_tree; t <= p->columns->last_local_tree && got < 0; ++t) { p4est_tree_t *tr = p4est_tree_array_index (p->columns->trees, t); if (tr->quadrants.elem_count) got = p4est_quadrant_array_index (&tr->quadrants, 0)->level; }
        if (got >= lo && got < hi) { real_level = got; History h; h.conn = conn; h.new_level = got; h.fill = fill; h.new_init = false; State st = new_state (h, P); sh.M.f = st.f; sh.M.f.conn = &conn; sh.M.cuts = st.cuts; fill_layers (sh.M); } } }
    sim::host_barrier ();
    if (me == 0) { if (ninit) { i64 w = sh.M.nlay (); CHECK (sh.got.inits == w, "new: %lld layers were initialized, expected %lld", (long long) sh.got.inits, (long long) w); } sh.got = Counts (); settle (sh.M, nop.seed); start = sh.M; }
    sim::host_barrier ();
    CHECK (p->user_pointer == &R && p->connectivity == c6, "process %d: pointers of the new forest", me);
    compare6 (p, conn, sh.M, "new");
    sim::host_barrier (); if (me == 0) known (sh.M); sim::host_barrier ();
    /* geometry */
    for (int k = 0; k < 3; ++k) { int t = (int) (mix (nop.seed, 5, (u64) k) % (u64) conn.nt); double v[24]; p6est_tree_get_vertices (c6, t, v);
      double cor[8][3]; for (int c = 0; c < 8; ++c) for (int j = 0; j < 3; ++j) { size_t vi = 3 * (size_t) conn.ttv[t * NCH + (c & 3)] + j; cor[c][j] = c < 4 ? conn.vertices[vi] : topv ? tv[vi] : conn.vertices[vi] + hgt[j]; CHECK (v[3 * c + j] == cor[c][j], "vertex %d of tree %d has coordinate %d %.17g, expected %.17g", c, t, j, v[3 * c + j], cor[c][j]); }
      i64 x[3]; for (int j = 0; j < 3; ++j) x[j] = k == 2 ? (i64) (mix (nop.seed, 6 + (u64) j) & 1) * RL : (i64) (mix (nop.seed, 6 + (u64) k, (u64) j) % (u64) (RL + 1)); double out[3]; p6est_qcoord_to_vertex (c6, t, (p4est_qcoord_t) x[0], (p4est_qcoord_t) x[1], (p4est_qcoord_t) x[2], out);
      for (int j = 0; j < 3; ++j) { double want = 0; for (int c = 0; c < 8; ++c) { double f = 1; for (int a = 0; a < 3; ++a) { double e = (double) x[a] / (double) RL; f *= (c >> a & 1) ? e : 1 - e; } want += f * cor[c][j]; } CHECK (std::abs (out[j] - want) <= 1e-12 * (1 + std::abs (want)) * 16, "position %lld %lld %lld of tree %d has coordinate %d %.17g, expected %.17g", (long long) x[0], (long long) x[1], (long long) x[2], t, j, out[j], want); } }
    for (size_t io = 0; io < ops.size (); ++io) {
      const POp & op = ops[io]; R.op = &op; char ctx[64]; snprintf (ctx, sizeof ctx, "after %s (%zu)", kname[op.kind], io);
      static thread_local bool skip; static Sheet nxt; static Counts want; static i64 shipped; static std::vector<p4est_locidx_t> given, corrected, final_;
      sim::host_barrier ();
      if (me == 0) { /* predict */
        const Sheet & s = sh.M; skip = false; nxt = s; want = Counts (); sh.got = Counts (); shipped = -1;
        auto weights = [&] () { std::vector<i64> w; for (auto & c : fcols (s)) { i64 x = 0; for (auto & y : *c.c) x += op.wmode == 0 ? 1 : op.weight (c.tree, c.l, y.z, y.level); w.push_back (x); } return w; };
        int maxl = op.maxlevel < 0 ? (int) QML : std::min (op.maxlevel, (int) QML);
        auto ship = [&] () { auto o = layer_offsets (s); shipped = 0; for (i64 i = 0; i < (i64) o.size () - 1; ++i) if (owner_of (s.cuts, i) != owner_of (nxt.cuts, i)) shipped += o[i + 1] - o[i]; };
        switch (op.kind) {
        case K_RCOL: { if (!refine (nxt.f, op.dec, op.rec, maxl, cap, [] (int, const Leaf &) { return (u64) 0; })) { skip = true; break; } derive_all (op, s, nxt, want); nxt.cuts = recut (s, nxt); break; }
        case K_RLAY: { for (int t = 0; t < (int) s.lay.size () && !skip; ++t) for (size_t i = 0; i < s.lay[t].size () && !skip; ++i) { Col r; const Leaf l = s.f.t[t][i]; for (auto & y : s.lay[t][i]) { split_lay (op, s.dsize, t, l, y, op.rec, maxl, [&] (const Lay & a) { return op.ldec (t, l, a.z, a.level); }, r, want); if ((i64) r.size () > cap) break; } nxt.lay[t][i] = r; if ((i64) r.size () > cap) skip = true; } break; }
        case K_CCOL: { Op o; o.kind = OP_COARSEN; o.cdec = op.cdec; o.rec = op.rec; State a, b; a.f = s.f; a.cuts = s.cuts; apply_model (a, o, P, 1 << 20, b); nxt.f = b.f; nxt.f.conn = &conn; nxt.cuts = b.cuts; derive_all (op, s, nxt, want); break; }
        case K_CLAY: for (int t = 0; t < (int) s.lay.size (); ++t) for (size_t i = 0; i < s.lay[t].size (); ++i) nxt.lay[t][i] = coarsen_lay (op, s.dsize, t, s.f.t[t][i], s.lay[t][i], op.rec, want); break;
        case K_PART: { auto w = weights (); i64 sum = 0; for (auto x : w) sum += x; shipped = 0; if (P > 1 && sum) { nxt.cuts = weighted_cuts (w, P); i64 mv; if (op.pfc) nxt.cuts = family_cuts (s.f, nxt.cuts, &mv); ship (); } break; }
        case K_GIVEN: { std::vector<int> fr; for (int q = 0; q < P - 1; ++q) fr.push_back (op.frac[q % 16] * (1 + 37 * (q / 16)) % 1001); std::sort (fr.begin (), fr.end ()); auto o = layer_offsets (s); i64 N = o.back (); std::vector<i64> b (1, 0); for (int q = 1; q < P; ++q) b.push_back (N * fr[q - 1] / 1000); b.push_back (N);
          given.clear (); corrected.clear (); final_.clear (); for (int q = 0; q < P; ++q) given.push_back ((p4est_locidx_t) (b[q + 1] - b[q]));
          Cuts cc; for (auto x : b) cc.push_back (std::lower_bound (o.begin (), o.end (), x) - o.begin ());
          for (int q = 0; q < P; ++q) corrected.push_back ((p4est_locidx_t) (o[cc[q + 1]] - o[cc[q]]));
          i64 mv; if (op.pfc) cc = family_cuts (s.f, cc, &mv); for (int q = 0; q < P; ++q) final_.push_back ((p4est_locidx_t) (o[cc[q + 1]] - o[cc[q]]));
          nxt.cuts = cc; ship (); break; }
        case K_COPY: if (op.keepcopy && !op.cdata && s.dsize) { nxt.dsize = 0; for (auto & t : nxt.lay) for (auto & c : t) for (auto & y : c) y.known = false; } break;
        case K_RESET: { bool resize = op.ds != s.dsize; nxt.dsize = op.ds; for (int t = 0; t < (int) nxt.lay.size (); ++t) for (size_t i = 0; i < nxt.lay[t].size (); ++i) for (auto & y : nxt.lay[t][i]) { if (op.init) { y.tag = mask (op.ds, op.itag (t, nxt.f.t[t][i], y.z, y.level)); want.inits++; } else if (resize) y.known = false; } break; }
        case K_FILE: { bool dat = op.sdata && s.dsize, ld = op.ldata && dat; nxt.dsize = ld ? s.dsize : op.ds; if (op.autop || !op.spart) nxt.cuts = uniform_cuts ((i64) flat (s.f).size (), P); if (!ld) for (auto & t : nxt.lay) for (auto & c : t) for (auto & y : c) y.known = false; break; }
        case K_BAL: { /* bound the work: only the columns can be predicted */ Forest f = s.f; bool over; Sheet q = s; Counts z; if (!op.plain && op.maxd >= op.mind) { std::function<void (int, const Leaf &, const Col &, Tree &)> rec = [&] (int t, const Leaf & l, const Col & c, Tree & T) { bool thin = false; for (auto & y : c) thin = thin || y.level - l.level > op.maxd; if (thin && l.level < QML && (i64) T.size () <= cap) for (int k = 0; k < NCH; ++k) rec (t, l.child (k), c, T); else T.push_back (l); };
            for (int t = 0; t < (int) s.f.t.size (); ++t) { Tree T; for (size_t i = 0; i < s.f.t[t].size (); ++i) rec (t, s.f.t[t][i], s.lay[t][i], T); q.f.t[t] = T; } if (q.f.count () > cap) { skip = true; break; } }
          f = q.f; balance (f, op.btype == 0 ? 1 : 2, [] (int, const Leaf &) { return (u64) 0; }, cap, &over); if (over) { skip = true; break; }
          q.f = f; q.f.conn = &conn; POp o2 = op; derive_all (o2, s, q, z); if (!op.plain && op.maxd >= op.mind) for (int t = 0; t < (int) q.lay.size (); ++t) for (size_t i = 0; i < q.lay[t].size (); ++i) { Col r; const Leaf l = q.f.t[t][i]; for (auto & y : q.lay[t][i]) { if (qlen (y.level) / std::max<i64> (1, qlen (std::min ((int) QML, std::max (y.level, l.level + op.mind)))) > 4 * cap) { skip = true; break; } split_lay (op, s.dsize, t, l, y, true, QML, [&] (const Lay & a) { return a.level - l.level < op.mind; }, r, z); } q.lay[t][i] = r; }
          if (skip || q.nlay () > 2 * cap) { skip = true; break; }
          std::vector<Col> cl; for (auto & c : fcols (q)) cl.push_back (*c.c); if (!closure (cl, near_of (q, op.btype), 3 * cap)) skip = true; break; }
        }
        if (!skip && nxt.nlay () > 2 * cap) skip = true;
        if (!skip && op.kind == K_BAL) { pre = s; pre.cuts.clear (); }
        if (!skip) { applied++; labs.insert (kname[op.kind]); }
      }
      sim::host_barrier ();
      if (skip) continue;
      p6est_init_t fi = op.init ? cb_init : nullptr; p6est_replace_t fr = op.repl ? cb_repl : nullptr; p4est_gloidx_t got = -1;
      switch (op.kind) {
      case K_RCOL: if (op.plain) p6est_refine_columns (p, op.rec, cb_rcol, fi); else p6est_refine_columns_ext (p, op.rec, op.maxlevel, cb_rcol, fi, fr); break;
      case K_RLAY: if (op.plain) p6est_refine_layers (p, op.rec, cb_rlay, fi); else p6est_refine_layers_ext (p, op.rec, op.maxlevel, cb_rlay, fi, fr); break;
      case K_CCOL: if (op.plain) p6est_coarsen_columns (p, op.rec, cb_ccol, fi); else p6est_coarsen_columns_ext (p, op.rec, op.orphans, cb_ccol, fi, fr); break;
      case K_CLAY: if (op.plain) p6est_coarsen_layers (p, op.rec, cb_clay, fi); else p6est_coarsen_layers_ext (p, op.rec, op.orphans, cb_clay, fi, fr); break;
      case K_BAL: { p8est_connect_type_t bt = op.btype == 0 ? P8EST_CONNECT_FACE : op.btype == 1 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_FULL;
        p4est_t *ref = nullptr; bool aspect = !op.plain && op.maxd >= op.mind; if (!aspect) { ref = p4est_copy (p->columns, 0); p4est_balance (ref, op.btype == 0 ? P4EST_CONNECT_FACE : P4EST_CONNECT_FULL, nullptr); }
        if (op.plain) p6est_balance (p, bt, fi); else p6est_balance_ext (p, bt, op.maxd, op.mind, fi, fr);
        if (ref) { CHECK (p4est_is_equal (ref, p->columns, 0), "process %d: %s: the columns are not those of a balanced forest of columns", me, ctx); p4est_destroy (ref); }
        /* collect what came out */
        sh.gather[me].clear ();
        for (int t = p->columns->first_local_tree; t <= p->columns->last_local_tree; ++t) { p4est_tree_t *tr = p4est_tree_array_index (p->columns->trees, t); for (size_t z = 0; z < tr->quadrants.elem_count; ++z) { p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z); size_t f, e; P6EST_COLUMN_GET_RANGE (q, &f, &e); CHECK (f < e && e <= p->layers->elem_count, "process %d: %s: layers %zu to %zu", me, ctx, f, e); Col c; for (size_t k = f; k < e; ++k) c.push_back (lay_of (p2est_quadrant_array_index (p->layers, k))); sh.gather[me].push_back ({ { t, leaf_of (q) }, c }); } }
        sim::host_barrier ();
        if (me == 0) {
          const Sheet & s = sh.M; Sheet b = s; for (auto & t : b.f.t) t.clear (); for (auto & t : b.lay) t.clear (); b.cuts.assign (1, 0);
          for (int q = 0; q < P; ++q) { for (auto & e : sh.gather[q]) { b.f.t[e.first.tree].push_back (e.first.l); b.lay[e.first.tree].push_back (e.second); } b.cuts.push_back (b.cuts.back () + (i64) sh.gather[q].size ()); }
          for (int t = 0; t < (int) b.f.t.size (); ++t) { Key at = 0; for (auto & l : b.f.t[t]) { CHECK (l.key == at, "%s: the columns do not tile tree %d", ctx, t); at = l.end (); } CHECK (at == qvol (0), "%s: the columns do not tile tree %d", ctx, t);
            for (auto & l : b.f.t[t]) CHECK (s.f.t[t][s.f.find (t, l.key)].level <= l.level, "%s: column %s was coarsened", ctx, str (t, l).c_str ()); }
          Sheet q = b; derive_all (op, s, q, want);         /* the columns split, layers as they were */
          if (aspect) for (int t = 0; t < (int) q.f.t.size (); ++t) for (size_t i = 0; i < q.f.t[t].size (); ++i) for (auto & y : q.lay[t][i]) CHECK (y.level - q.f.t[t][i].level <= op.maxd || q.f.t[t][i].level == QML, "%s: column %s has thinner layers than permitted", ctx, str (t, q.f.t[t][i]).c_str ());
          { Forest f = s.f; if (aspect) { std::function<void (int, const Leaf &, const Col &, Tree &)> rec = [&] (int t, const Leaf & l, const Col & c, Tree & T) { bool thin = false; for (auto & y : c) thin = thin || y.level - l.level > op.maxd; if (thin && l.level < QML) for (int k = 0; k < NCH; ++k) rec (t, l.child (k), c, T); else T.push_back (l); }; for (int t = 0; t < (int) s.f.t.size (); ++t) { Tree T; for (size_t i = 0; i < s.f.t[t].size (); ++i) rec (t, s.f.t[t][i], s.lay[t][i], T); f.t[t] = T; } }
            bool over; balance (f, op.btype == 0 ? 1 : 2, [] (int, const Leaf &) { return (u64) 0; }, 1 << 20, &over); CHECK (is_balanced (b.f, op.btype == 0 ? 1 : 2), "%s: the columns are not balanced", ctx);
            if (conn.regular) for (int t = 0; t < (int) f.t.size (); ++t) CHECK (f.t[t] == b.f.t[t], "%s: the columns of tree %d are not the balanced ones", ctx, t);
            else for (int t = 0; t < (int) f.t.size (); ++t) for (auto & l : b.f.t[t]) CHECK (l.level >= f.t[t][f.find (t, l.key)].level, "%s: column %s is too coarse", ctx, str (t, l).c_str ()); }
          nxt = b; nxt.lay = q.lay; bool stage = false;
          /* layers that are too thick, then 2:1 */
          Counts w2 = want; (void) w2; Sheet s3 = q; Counts dummy;
          if (aspect) for (int t = 0; t < (int) s3.lay.size (); ++t) for (size_t i = 0; i < s3.lay[t].size (); ++i) { Col r; const Leaf l = s3.f.t[t][i]; for (auto & y : s3.lay[t][i]) split_lay (op, s.dsize, t, l, y, true, QML, [&] (const Lay & a) { return a.level - l.level < op.mind; }, r, dummy); s3.lay[t][i] = r; }
          std::vector<Col> cl; for (auto & c : fcols (s3)) cl.push_back (*c.c); auto nb = near_of (s3, op.btype); closure (cl, nb, 1 << 20);
          std::vector<Col> rl; for (auto & c : fcols (b)) rl.push_back (*c.c); bool uni = true; for (auto & t : b.f.t) for (auto & l : t) uni = uni && l.level == b.f.t[0][0].level;
          auto fcb = fcols (b);
          for (size_t i = 0; i < rl.size (); ++i) { i64 at = 0; for (auto & y : rl[i]) { CHECK (y.z == at && y.level >= 0 && y.level <= QML && at % qlen (y.level) == 0, "%s: column %s is not tiled by its layers", ctx, str (fcb[i].tree, fcb[i].l).c_str ()); at += qlen (y.level); } CHECK (at == s.root, "%s: column %s is not tiled by its layers", ctx, str (fcb[i].tree, fcb[i].l).c_str ());
            for (auto & y : rl[i]) { CHECK (!violated (rl, nb, i, y), "%s: %s is not 2:1 balanced with %s", ctx, cs (fcb[i].tree, fcb[i].l, y.z, y.level).c_str (), cs (fcb[vwhat.first].tree, fcb[vwhat.first].l, vwhat.second.z, vwhat.second.level).c_str ());
              auto it = std::upper_bound (cl[i].begin (), cl[i].end (), y.z, [] (i64 z, const Lay & x) { return z < x.z; }); --it; CHECK (it->level <= y.level, "%s: %s is coarser than required", ctx, cs (fcb[i].tree, fcb[i].l, y.z, y.level).c_str ());
              if (op.btype == 0 || uni) CHECK (it->level == y.level, "%s: %s is finer than required, level %d suffices", ctx, cs (fcb[i].tree, fcb[i].l, y.z, y.level).c_str (), it->level); } }
          (void) stage;
          /* data: from the layers of the split columns */
          for (int t = 0; t < (int) q.lay.size (); ++t) for (size_t i = 0; i < q.lay[t].size (); ++i) { Col r; const Leaf l = q.f.t[t][i]; const Col & tgt = b.lay[t][i]; for (auto & y : q.lay[t][i]) split_lay (op, s.dsize, t, l, y, true, QML, [&] (const Lay & a) { auto it = std::upper_bound (tgt.begin (), tgt.end (), a.z, [] (i64 z, const Lay & x) { return z < x.z; }); --it; return it->level > a.level; }, r, want); nxt.lay[t][i] = r; }
          balop = (int) io; post = nxt; balanced2 = !aspect;
        }
        sim::host_barrier ();
        break; }
      case K_PART: got = op.plain && !op.pfc ? p6est_partition (p, op.wmode ? cb_weight : nullptr) : p6est_partition_ext (p, op.pfc, op.wmode ? cb_weight : nullptr); break;
      case K_GIVEN: { std::vector<p4est_locidx_t> n = given; p6est_partition_correct (p, n.data ()); CHECK (n == corrected, "process %d: %s: the corrected partition is wrong", me, ctx);
        std::vector<p4est_locidx_t> ncol (P), back (P); p6est_partition_to_p4est_partition (p, n.data (), ncol.data ()); p4est_partition_to_p6est_partition (p, ncol.data (), back.data ()); CHECK (back == n, "process %d: %s: conversion to columns and back changes the partition", me, ctx);
        if (op.pfc) { p6est_partition_for_coarsening (p, n.data ()); CHECK (n == final_, "process %d: %s: the partition for coarsening is wrong", me, ctx); }
        got = p6est_partition_given (p, n.data ()); break; }
      case K_COPY: { bool dup = op.dup || (op.keepcopy && p->mpicomm_owned); p6est_t *q = dup || !op.plain ? p6est_copy_ext (p, op.cdata, dup) : p6est_copy (p, op.cdata); CHECK (q != p && q->user_pointer == p->user_pointer && q->connectivity == p->connectivity, "process %d: %s: pointers", me, ctx); CHECK (!q->mpicomm_owned == !dup, "process %d: %s: ownership of the communicator", me, ctx);
        if (op.keepcopy) std::swap (p, q); else { Sheet x = sh.M; if (!op.cdata && x.dsize) { x.dsize = 0; for (auto & t : x.lay) for (auto & c : t) for (auto & y : c) y.known = false; } compare6 (q, conn, x, "copy"); }
        p6est_destroy (q); R.ds = p->data_size; break; }
      case K_RESET: R.ds = op.ds; p6est_reset_data (p, op.ds, fi, &R); break;
      case K_FILE: { char nm[32]; snprintf (nm, sizeof nm, "sheet%zu", io); unsigned c0 = p6est_checksum (p);
        if (op.spart && op.plain) p6est_save (nm, p, op.sdata); else p6est_save_ext (nm, p, op.sdata, op.spart);
        p6est_connectivity_t *n6 = nullptr; bool dat = op.sdata && sh.M.dsize, ld = op.ldata && dat; size_t ns = ld ? sh.M.dsize : op.ds;
        int autop = op.autop || (!op.spart && P > 1);   /* the number of processes in the file is 1 */
        p6est_t *q = autop || op.bcast ? p6est_load_ext (nm, sc_MPI_COMM_WORLD, ns, ld, autop, op.bcast, &R, &n6) : p6est_load (nm, sc_MPI_COMM_WORLD, ns, ld, &R, &n6);
        CHECK (n6 && n6->conn4 && q->connectivity == n6 && conn.same_as (n6->conn4), "process %d: %s: the connectivity is another one", me, ctx);
        CHECK (!n6->top_vertices == !c6->top_vertices, "process %d: %s: upper vertices are %p", me, ctx, (void *) n6->top_vertices);
        if (topv) CHECK (!memcmp (n6->top_vertices, c6->top_vertices, tv.size () * sizeof (double)), "process %d: %s: upper vertices differ", me, ctx); else CHECK (!memcmp (n6->height, c6->height, 3 * sizeof (double)), "process %d: %s: heights differ", me, ctx);
        unsigned c1 = p6est_checksum (q); CHECK (c0 == c1, "process %d: %s: checksum %x, was %x", me, ctx, c1, c0);
        p6est_destroy (p); p6est_connectivity_destroy (c6); p = q; c6 = n6; R.ds = ns; break; }
      }
      sim::host_barrier ();
      if (me == 0) {
        if (op.kind <= K_BAL || op.kind == K_RESET) CHECK (sh.got.inits == (op.init ? want.inits : 0), "%s: %lld layers were initialized, expected %lld", ctx, (long long) sh.got.inits, (long long) want.inits);
        if (op.kind <= K_BAL) CHECK (sh.got.repls == (op.repl ? want.repls : 0), "%s: %lld replacements, expected %lld", ctx, (long long) sh.got.repls, (long long) want.repls);
        settle (nxt, op.seed); sh.M = nxt; if (op.kind == K_BAL) post = nxt;
      }
      sim::host_barrier ();
      if (op.kind == K_PART || op.kind == K_GIVEN) CHECK (got == shipped, "process %d: %s: %lld layers shipped, expected %lld", me, ctx, (long long) got, (long long) shipped);
      CHECK (p->user_pointer == &R && p->connectivity == c6, "process %d: %s: pointers changed", me, ctx);
      compare6 (p, conn, sh.M, ctx);
      sim::host_barrier (); if (me == 0) known (sh.M); sim::host_barrier ();
      if (op.kind == K_BAL && !(!op.plain && op.maxd >= op.mind) && io % 2 == 0) { p8est_connect_type_t bt = op.btype == 0 ? P8EST_CONNECT_FACE : op.btype == 1 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_FULL; p6est_balance (p, bt, cb_init); compare6 (p, conn, sh.M, "balanced once more"); }
    }
    if (doghost) check_pghost (p, sh.M, gbt, gx, ms);
    if (dolnodes && balop >= 0 && balop == (int) ops.size () - 1) check_pnodes (p, sh.M, deg, labels, NT);
    { unsigned x = p6est_checksum (p); if (me == 0) crc = x; sim::host_barrier (); CHECK (x == 0 || x == crc, "process %d: the checksum is neither 0 nor the one of process 0", me); }
    p6est_save_ext ("final", p, 1, 0);
    if (me == 0) { FILE *fl = fopen ("final", "rb"); CHECK (fl, "the file was not written"); char buf[4096]; size_t n; while ((n = fread (buf, 1, sizeof buf, fl)) > 0) file0.append (buf, n); fclose (fl); }
    sim::host_barrier ();
    if (doreduce) {
      std::vector<int> keep; for (int q = 0; q < P; ++q) if (sh.M.cuts[q + 1] > sh.M.cuts[q]) keep.push_back (q);
      bool grouped = (nop.seed & 5) == 5, front = nop.seed & 8; std::vector<int> add; MPI_Group grp = MPI_GROUP_NULL; int full = (int) keep.size ();
      if (grouped) { std::vector<int> extra; for (int q = 0; q < P; ++q) if (mix (nop.seed, q) & 1) { add.push_back (q); if (sh.M.cuts[q + 1] == sh.M.cuts[q]) extra.push_back (q); else if (front) add.pop_back (); }   /* full processes at the front would change their order */
        if (full < P) keep.insert (front ? keep.begin () : keep.end (), extra.begin (), extra.end ());
        MPI_Group world; MPI_Comm_group (MPI_COMM_WORLD, &world); MPI_Group_incl (world, (int) add.size (), add.data (), &grp); MPI_Group_free (&world); }
      /* the communicator may be exchanged before */
      CHECK (!p6est_comm_parallel_env_is_null (p), "the communicator is null");
      MPI_Comm dup = MPI_COMM_NULL; int env = (int) (nop.seed >> 4) % 5;
      if (env == 1 && !p->mpicomm_owned) { p6est_comm_parallel_env_duplicate (p); CHECK (p->mpicomm_owned && p->mpicomm != MPI_COMM_WORLD, "process %d: no duplicate of the communicator is owned", me); }
      if (env == 2) { MPI_Comm_dup (MPI_COMM_WORLD, &dup); p6est_comm_parallel_env_replace (p, dup); CHECK (p->mpicomm == dup && !p->mpicomm_owned, "process %d: p6est_comm_parallel_env_replace does not use the new communicator, unowned", me); }
      if (env == 3) { p6est_comm_parallel_env_release (p); CHECK (p6est_comm_parallel_env_is_null (p) && !p->mpicomm_owned && p->mpisize == 0 && p->mpirank == MPI_UNDEFINED, "process %d: the communicator is not released", me); p6est_comm_parallel_env_assign (p, MPI_COMM_WORLD); CHECK (!p->mpicomm_owned && p->mpicomm == MPI_COMM_WORLD, "process %d: an assigned communicator is owned", me); }
      if (env == 4) { p->mpisize = p->mpirank = -3; p6est_comm_parallel_env_get_info (p); }
      if (env) { CHECK (p->mpisize == P && p->mpirank == me, "process %d: process %d of %d after a change of the communicator", me, p->mpirank, p->mpisize); CHECK (p->columns->mpicomm == p->mpicomm, "process %d: the columns keep another communicator", me); comparep (p, conn, sh.M, "other communicator", me); }
      bool in = std::find (keep.begin (), keep.end (), me) != keep.end (); int *map = nullptr; bool ext = nop.seed & 1;
      int ex = ext ? p6est_comm_parallel_env_reduce_ext (&p, grouped ? grp : sc_MPI_GROUP_NULL, grouped && front, &map) : p6est_comm_parallel_env_reduce (&p);
      CHECK (!ex == !in && (p != nullptr) == in, "process %d: part of the reduced communicator: %d", me, ex);
      if (in) { if (ext && full < P) { CHECK (map, "process %d: no map of the processes", me); for (size_t i = 0; i < keep.size (); ++i) CHECK (map[i] == keep[i], "process %d: process %zu is %d, expected %d", me, i, map[i], keep[i]); }
        Sheet x = sh.M; Cuts cc (1, 0); for (int q : keep) cc.push_back (cc.back () + x.cuts[q + 1] - x.cuts[q]); x.cuts = cc; int r2 = (int) (std::find (keep.begin (), keep.end (), me) - keep.begin ()); comparep (p, conn, x, "reduced", r2);
        p6est_partition (p, nullptr); p6est_checksum (p); }
      if (map) P4EST_FREE (map);
      if (grouped) MPI_Group_free (&grp);
      if (p) p6est_destroy (p);
      p = nullptr; if (dup != MPI_COMM_NULL) MPI_Comm_free (&dup);
    }
    if (p) p6est_destroy (p);
    p6est_connectivity_destroy (c6);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after everything");
  for (auto & s : labs) label ("%s", s.c_str ()); if (from) label ("from p4est"); if (zroot & (zroot - 1)) label ("root layers not a power of two"); if (doghost) label ("ghost"); if (NT.back.size ()) label ("nodes");
  if (!second) return;
  label ("second run");
  Sheet fin = sh.M;
  auto cutin = [&] (Sheet & s) { s.cuts.clear (); i64 n = s.f.count (); for (auto x : c2) s.cuts.push_back (n * x / 1000); };
  sim::run (cfg2, [&] (int me) {
    PRun R; R.sh = &sh; R.rank = me; R.up = &R; R.op = &nop; R.ds = fin.dsize; sim::host_barrier ();
    p6est_connectivity_t *n6 = nullptr; p6est_t *q = p6est_load_ext ("final", sc_MPI_COMM_WORLD, fin.dsize, fin.dsize > 0, 1, (int) (nop.seed >> 1 & 1), &R, &n6);
    if (me == 0) { fin.cuts = uniform_cuts (fin.f.count (), cfg2.P); if (!fin.dsize) for (auto & t : fin.lay) for (auto & c : t) for (auto & y : c) y.known = false; }
    sim::host_barrier ();
    compare6 (q, conn, fin, "loaded by another number of processes");
    unsigned x = p6est_checksum (q); if (me == 0) { crc2 = x; CHECK (crc == x, "checksum %x on %d processes and %x on %d", crc, P, x, cfg2.P); }
    p6est_save_ext ("again", q, 1, 0);
    if (me == 0) { std::string f1; FILE *fl = fopen ("again", "rb"); CHECK (fl, "the file was not written"); char buf[4096]; size_t n; while ((n = fread (buf, 1, sizeof buf, fl)) > 0) f1.append (buf, n); fclose (fl);
      size_t d = 0; while (d < f1.size () && d < file0.size () && f1[d] == file0[d]) ++d; CHECK (f1 == file0, "files without partition from %d and %d processes have %zu and %zu bytes and differ at %zu", P, cfg2.P, file0.size (), f1.size (), d); }
    p6est_destroy (q);
    if (balop >= 0) {
      if (me == 0) { cutin (pre); Sheet b = post; b.cuts.clear (); }
      sim::host_barrier ();
      R.ds = pre.dsize; const POp & op = ops[balop]; q = build_sheet (n6, pre, R); Sheet w = pre; for (auto & t : w.lay) for (auto & c : t) for (auto & y : c) y.known = false;
      compare6 (q, conn, w, "built"); R.op = &op; w = post; for (auto & t : w.lay) for (auto & c : t) for (auto & y : c) y.known = false;
      { Sheet a = pre; w.cuts = recut (a, w); }
      p8est_connect_type_t bt = op.btype == 0 ? P8EST_CONNECT_FACE : op.btype == 1 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_FULL;
      if (op.plain) p6est_balance (q, bt, nullptr); else p6est_balance_ext (q, bt, op.maxd, op.mind, nullptr, nullptr);
      compare6 (q, conn, w, "balanced by another number of processes");
      p6est_destroy (q);
    }
    p6est_connectivity_destroy (n6);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mark, "after the second run");
  (void) applied; (void) real_level; (void) balanced2; (void) crc2;
}
}
