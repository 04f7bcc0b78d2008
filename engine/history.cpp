#include "history.h"
namespace DNS {
using namespace eng;

int Op::weight (int t, const Leaf & l) const {
  u64 h = mix (seed + 77, mix ((u64) t, kh (l.key), (u64) l.level));
  switch (wmode) {
  case 0: return 1;
  case 1: return (int) (h % 4);
  case 2: return h % 40 == 0 ? 1000 : 1;
  case 3: return l.level;
  case 4: return h % 12 == 0 ? 1 : 0;
  case 5: return 2147483647 - (int) (h % 1000);
  case 6: return 0;
  }
  return (int) (h % 1000);
}
std::string Op::text () const {
  char b[400];
  switch (kind) {
  case OP_REFINE: snprintf (b, sizeof b, "refine%s %s max %d%s%s%s", rec ? " recursively" : "", dec.text ().c_str (), maxlevel, use_init ? " init" : "", use_replace ? " replace" : "", plain ? " plain" : ""); break;
  case OP_COARSEN: snprintf (b, sizeof b, "coarsen%s d%d min %d%s%s%s%s", rec ? " recursively" : "", cdec.density, cdec.lmin, orphans ? " orphans" : "", use_init ? " init" : "", use_replace ? " replace" : "", plain ? " plain" : ""); break;
  case OP_BALANCE: snprintf (b, sizeof b, "balance codim %d inspect %d%s%s%s", codim, inspect, use_init ? " init" : "", use_replace ? " replace" : "", plain ? " plain" : ""); break;
  case OP_PARTITION: snprintf (b, sizeof b, "partition %s%s", pmode == 0 ? "uniform" : pmode == 1 ? ("weights " + std::to_string (wmode)).c_str () : "given", pfc ? " for coarsening" : ""); break;
  case OP_COPY: snprintf (b, sizeof b, "copy%s", copy_data ? "" : " without data"); break;
  default: snprintf (b, sizeof b, "reset data %d%s", (int) data_size, use_init ? " init" : ""); break;
  }
  return b;
}

/* ------------------------------------------------------------------ model */
Cuts weighted_cuts (const std::vector<i64> & w, int P) {
  i64 n = (i64) w.size ();
  std::vector<__int128> cum (n + 1, 0);
  for (i64 i = 0; i < n; ++i) cum[i + 1] = cum[i] + w[i];
  Cuts c (P + 1, 0);
  for (int p = 1; p < P; ++p) {
    __int128 target = cum[n] * p / P;
    c[p] = std::lower_bound (cum.begin (), cum.end (), target) - cum.begin ();
  }
  c[P] = n;
  return c;
}
Cuts family_cuts (const Forest & f, const Cuts & c, i64 *moved) {
  Cuts r = c; int P = (int) c.size () - 1;
  i64 base = 0;
  for (auto & t : f.t) {
    for (i64 k = 0; k + NCH <= (i64) t.size (); ++k) {
      bool fam = t[k].level > 0;
      for (int i = 0; i < NCH && fam; ++i) fam = t[k + i].level == t[k].level && t[k + i].childid () == i;
      if (!fam) continue;
      i64 a = base + k, b = a + NCH, best = 0; int win = -1;
      for (int p = 0; p < P; ++p) {
        i64 ov = std::min (b, c[p + 1]) - std::max (a, c[p]);
        if (ov > best) { best = ov; win = p; }
      }
      for (int p = 0; p <= P; ++p) if (c[p] > a && c[p] < b) r[p] = p <= win ? a : b;
    }
    base += (i64) t.size ();
  }
  *moved = 0;
  for (int p = 0; p <= P; ++p) *moved += std::abs (r[p] - c[p]);
  return r;
}
static void coarsen_model (const State & s, const Op & op, State & out) {
  out.f.conn = s.f.conn; out.f.t.assign (s.f.t.size (), {});
  int P = (int) s.cuts.size () - 1;
  std::vector<i64> cnt (P, 0);
  i64 g = 0;
  for (int t = 0; t < (int) s.f.t.size (); ++t) {
    const Tree & T = s.f.t[t];
    size_t k = 0;
    while (k < T.size ()) {
      int r = owner_of (s.cuts, g + (i64) k);
      size_t e = (size_t) std::min<i64> ((i64) T.size (), s.cuts[r + 1] - g);
      std::vector<Leaf> st;
      auto family = [&] (const Leaf * q) { if (q->level == 0) return false;
        for (int i = 0; i < NCH; ++i) if (q[i].level != q[0].level || q[i].childid () != i || q[i].parent ().key != q[0].parent ().key) return false; return true; };
      auto merged = [&] (const Leaf & q) { Leaf p = q.parent (); p.tag = op.newtag (t, p); return p; };
      if (op.rec) {
        for (size_t i = k; i < e; ++i) {
          st.push_back (T[i]);
          while (st.size () >= NCH && family (&st[st.size () - NCH]) && op.cdec (t, st.back ().parent ())) {
            Leaf p = merged (st.back ());
            st.resize (st.size () - NCH); st.push_back (p);
          }
        }
      }
      else
        for (size_t i = k; i < e;) {
          if (i + NCH <= e && family (&T[i]) && op.cdec (t, T[i].parent ())) { st.push_back (merged (T[i])); i += NCH; }
          else st.push_back (T[i++]);
        }
      cnt[r] += (i64) st.size ();
      out.f.t[t].insert (out.f.t[t].end (), st.begin (), st.end ());
      k = e;
    }
    g += (i64) T.size ();
  }
  out.cuts.assign (P + 1, 0);
  for (int p = 0; p < P; ++p) out.cuts[p + 1] = out.cuts[p] + cnt[p];
}
/* offsets after leaves were replaced by descendants: boundaries stay at the same position */
static Cuts recut (const Forest & a, const Cuts & c, const Forest & b) {
  Cuts r (c.size (), 0);
  std::vector<i64> oa (1, 0), ob (1, 0);
  for (auto & t : a.t) oa.push_back (oa.back () + (i64) t.size ());
  for (auto & t : b.t) ob.push_back (ob.back () + (i64) t.size ());
  for (size_t p = 0; p < c.size (); ++p) {
    if (c[p] >= oa.back ()) { r[p] = ob.back (); continue; }
    int t = (int) (std::upper_bound (oa.begin (), oa.end (), c[p]) - oa.begin ()) - 1;
    Key key = a.t[t][c[p] - oa[t]].key;
    r[p] = ob[t] + (std::lower_bound (b.t[t].begin (), b.t[t].end (), key, [] (const Leaf & l, Key k) { return l.key < k; }) - b.t[t].begin ());
  }
  return r;
}
bool apply_model (const State & s, const Op & op, int P, i64 cap, State & out) {
  out = State ();
  out.revision = s.revision; out.data_size = s.data_size; out.f = s.f; out.cuts = s.cuts;
  TagFn tag = [&op] (int t, const Leaf & l) { return op.newtag (t, l); };
  switch (op.kind) {
  case OP_REFINE:
    if (!refine (out.f, op.dec, op.rec, op.maxlevel < 0 ? (int) QML : op.maxlevel, cap, tag)) return false;
    out.cuts = recut (s.f, s.cuts, out.f);
    if (out.f.count () != s.f.count ()) out.revision++;
    break;
  case OP_COARSEN:
    coarsen_model (s, op, out);
    if (out.f.count () != s.f.count ()) out.revision++;
    break;
  case OP_BALANCE: {
    bool over;
    balance (out.f, op.codim, tag, cap, &over);
    if (over) return false;
    out.cuts = recut (s.f, s.cuts, out.f);
    if (out.f.count () != s.f.count ()) out.revision++;
    break; }
  case OP_PARTITION: {
    if (P == 1) break;
    i64 n = s.f.count ();
    if (op.pmode == 2) out.cuts = op.given;
    else if (op.pmode == 0) out.cuts = uniform_cuts (n, P);
    else {
      std::vector<i64> w; i64 sum = 0;
      for (auto & g : flat (s.f)) { w.push_back (op.weight (g.tree, g.l)); sum += w.back (); }
      if (sum == 0) break;
      out.cuts = weighted_cuts (w, P);
    }
    i64 moved;
    if (op.pfc && op.pmode != 2) out.cuts = family_cuts (s.f, out.cuts, &moved);
    out.shipped = 0;
    for (i64 i = 0; i < n; ++i) out.shipped += owner_of (s.cuts, i) != owner_of (out.cuts, i);
    if (op.pmode != 2 && out.shipped) out.revision++;
    break; }
  case OP_COPY: out.revision = 0; if (!op.copy_data) out.data_size = 0; break;
  case OP_RESET: out.data_size = op.data_size; set_tags (out.f, [&op] (int t, const Leaf & l) { return op.use_init ? op.itag (t, l) : 0; }); break;
  }
  return true;
}
static void fill_coarse (Tree & out, Key a, Key b) {   /* maximal aligned blocks in [a, b) */
  while (a < b) {
    int l = ML;
    while (l > 0 && (a & (qvol (l - 1) - 1)) == 0 && a + qvol (l - 1) <= b) --l;
    out.push_back (Leaf { a, l, 0 });
    a += qvol (l);
  }
}
State new_state (const History & h, int P) {
  State s;
  s.f.conn = &h.conn; s.f.t.resize (h.conn.nt); s.data_size = h.data_size; s.cuts.assign (P + 1, 0);
  int level = 0; i64 nt = h.conn.nt, per = 1;
  while (per * nt < (i64) P * h.min_quads) { per *= NCH; ++level; }
  while (level < h.new_level) { per *= NCH; ++level; }
  Cuts c = uniform_cuts (per * nt, P);
  for (int p = 0; p < P; ++p) {
    i64 cnt = 0;
    for (i64 t = 0; t < nt; ++t) {
      i64 a = std::max (c[p], t * per) - t * per, b = std::min (c[p + 1], (t + 1) * per) - t * per; /* [a, b) of tree t */
      if (a >= b) continue;
      size_t before = s.f.t[t].size ();
      Tree & T = s.f.t[t];
      if (h.fill) for (i64 i = a; i < b; ++i) T.push_back (Leaf { (Key) i * qvol (level), level, 0 });
      else {
        T.push_back (Leaf { (Key) a * qvol (level), level, 0 });
        bool whole = b == per;  /* then the last quadrant is kept at this level */
        Key stop = whole ? (Key) (per - 1) * qvol (level) : (Key) b * qvol (level);
        if (whole && a == per - 1) stop = 0;
        if (stop) {
          fill_coarse (T, (Key) (a + 1) * qvol (level), stop);
          if (whole) T.push_back (Leaf { stop, level, 0 });
        }
      }
      cnt += (i64) (T.size () - before);
    }
    s.cuts[p + 1] = s.cuts[p] + cnt;
  }
  set_tags (s.f, [&h] (int t, const Leaf & l) { return h.new_init ? h.newop.itag (t, l) : 0; });
  return s;
}

static Op draw_op (const History & h, const HistOpts & o, const State & s, int k) {
  Op op;
  op.kind = k;
  op.seed = draw (1 << 24) + 1;
  op.plain = chance (20);
  op.use_init = chance (80);
  op.use_replace = !op.plain && chance (50);
  switch (k) {
  case OP_REFINE:
    op.dec = draw_refine_dec (h.conn); op.rec = chance (65);
    op.maxlevel = op.plain ? -1 : chance (25) ? range (0, 4) : -1;
    break;
  case OP_COARSEN:
    op.cdec = draw_coarsen_dec (); op.rec = !o.partition_independent && chance (55); op.orphans = !op.plain && chance (40);
    break;
  case OP_BALANCE: op.codim = range (1, DIM); if (!h.conn.regular) op.codim = DIM;
    if (chance (25)) { op.inspect = 1 + (int) draw (8); op.max_ranges = (int) draw (4); }
    break;
  case OP_PARTITION:
    op.pmode = weighted ({ 35, 35, 30 });
    op.pfc = op.pmode != 2 && chance (45);
    op.wmode = op.pmode == 1 ? (int) draw (8) : 0;
    if (op.pmode == 2) op.given = draw_forest_cuts (flat (s.f), h.cfg.P);
    break;
  case OP_COPY: op.copy_data = chance (75); break;
  case OP_RESET: op.data_size = (size_t) draw_data_size (); break;
  }
  return op;
}
void draw_history (History & h, const HistOpts & o) {
  h.cfg = draw_sim (o.maxP);
  h.conn = draw_conn (o.maxtrees);
  h.data_size = (size_t) draw_data_size ();
  h.fill = o.given_only_uniform_new || chance (65);
  h.new_init = chance (85);
  h.newop.seed = draw (1 << 24) + 1;
  int want = range (0, 3);
  while (h.new_level < want && ((i64) h.conn.nt << (DIM * (h.new_level + 1))) <= o.maxleaves) ++h.new_level;
  if (!o.given_only_uniform_new && chance (15)) h.min_quads = range (0, 12);
  h.st.push_back (new_state (h, h.cfg.P));
  if (h.st[0].f.count () > 2 * o.maxleaves) { h.min_quads = 0; h.st[0] = new_state (h, h.cfg.P); }
  int n = range (o.minops, o.maxops);
  std::string txt;
  for (int i = 0; i < n; ++i) {
    int tot = 0; for (int k = 0; k < N_OP; ++k) tot += o.w[k];
    int v = (int) draw (tot), k = 0;
    while (v >= o.w[k]) v -= o.w[k++];
    Op op = draw_op (h, o, h.st.back (), k);
    if (k == OP_COARSEN && o.partition_independent && h.cfg.P >= 1) {
      Op pre; pre.kind = OP_PARTITION; pre.pfc = true; pre.pmode = 0;
      State s; apply_model (h.st.back (), pre, h.cfg.P, 0, s);
      txt += " | " + pre.text ();
      h.ops.push_back (pre); h.st.push_back (s);
    }
    State s;
    i64 cap = o.maxleaves * (k == OP_BALANCE ? 3 : 1);
    cap = std::max (cap, h.st.back ().f.count ());
    bool ok = apply_model (h.st.back (), op, h.cfg.P, cap, s);
    while (!ok && k == OP_REFINE && op.dec.lmax > 0) {
      op.dec.lmax = std::max (0, op.dec.lmax - (op.dec.lmax > 8 ? 3 : 1));
      ok = apply_model (h.st.back (), op, h.cfg.P, cap, s);
    }
    if (!ok) continue;
    txt += " | " + op.text ();
    label ("%s", op.kind == OP_REFINE ? "op refine" : op.kind == OP_COARSEN ? "op coarsen" : op.kind == OP_BALANCE ? "op balance" : op.kind == OP_PARTITION ? "op partition" : op.kind == OP_COPY ? "op copy" : "op reset");
    h.ops.push_back (op); h.st.push_back (s);
  }
  const State & e = h.st.back ();
  describe ("dim %d conn %s (%d trees), P %d policy %d buf %d lax %d, new level %d min %d %s data %zu: %zu leaves%s -> %lld leaves, max level %d; ", DIM, h.conn.name.c_str (), h.conn.nt,
            h.cfg.P, h.cfg.policy, h.cfg.buffering, h.cfg.lax_collectives, h.new_level, h.min_quads, h.fill ? "uniform" : "coarse", h.data_size,
            (size_t) h.st[0].f.count (), txt.c_str (), (long long) e.f.count (), e.f.maxlevel ());
  label ("dim %d", DIM);
  label ("P %s", h.cfg.P == 1 ? "1" : h.cfg.P <= 3 ? "2-3" : h.cfg.P <= 7 ? "4-7" : "8+");
  for (auto & s : h.st) for (int p = 0; p < h.cfg.P; ++p) if (s.cuts[p] == s.cuts[p + 1]) label ("empty processes");
}

/* -------------------------------------------------------------- execution */
static Runner *R (p4est_t * p) { return (Runner *) p->user_pointer; }
static Runner::LK K (int t, const Leaf & l) { return { t, l.key, l.level }; }
static void verify_data (Runner * r, p4est_t * p, int t, p4est_quadrant_t * q, const char *what) {
  if (p->data_size == 0) return;
  Leaf l = leaf_of (q);
  auto it = r->live.find (K (t, l));
  if (it == r->live.end () || it->second == 0) return;
  CHECK (check_bytes (q->p.user_data, p->data_size, it->second), "%s: process %d: user data of leaf %s is wrong in the callback", what, r->rank, str (t, l).c_str ());
  eng::checks ();
}
static void put_data (Runner * r, p4est_t * p, int t, p4est_quadrant_t * q, u64 tag) {
  if (p->data_size) fill_bytes (q->p.user_data, p->data_size, tag);
  r->live[K (t, leaf_of (q))] = tag;
}
static int cb_refine (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) {
  Runner *r = R (p); Leaf l = leaf_of (q);
  verify_data (r, p, t, q, "refine decision");
  r->asked[K (t, l)]++;
  return r->op->dec (t, l);
}
static void cb_init (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) {
  Runner *r = R (p); Leaf l = leaf_of (q);
  CHECK (t >= 0 && t < r->h.conn.nt, "initialization callback with tree %d", (int) t);
  r->inits[K (t, l)]++;
  if (r->phase == 1) r->order.push_back (K (t, l));
  put_data (r, p, t, q, r->op->itag (t, l));
}
static int cb_coarsen (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q[]) {
  Runner *r = R (p);
  Leaf l = leaf_of (q[0]);
  verify_data (r, p, t, q[0], "coarsen decision");
  if (q[1] == nullptr) {
    CHECK (r->op->orphans, "coarsen callback called on an orphan %s without being asked to", str (t, l).c_str ());
    r->orphaned[K (t, l)]++;
    return 1;                   /* must be ignored */
  }
  CHECK (l.level > 0, "coarsen callback on a root");
  Leaf par = l.parent ();
  for (int i = 0; i < NCH; ++i) {
    CHECK (leaf_of (q[i]) == par.child (i), "coarsen callback: member %d of the family is %s, expected %s", i, str (t, leaf_of (q[i])).c_str (), str (t, par.child (i)).c_str ());
    if (i) verify_data (r, p, t, q[i], "coarsen decision");
  }
  r->asked[K (t, par)]++;
  return r->op->cdec (t, par);
}
static void cb_replace (p4est_t * p, p4est_topidx_t t, int no, p4est_quadrant_t * out[], int ni, p4est_quadrant_t * in[]) {
  Runner *r = R (p);
  bool co = r->op->kind == OP_COARSEN;
  CHECK (no == (co ? (int) NCH : 1) && ni == (co ? 1 : (int) NCH), "replace callback: %d outgoing and %d incoming quadrants", no, ni);
  Leaf par = leaf_of (co ? in[0] : out[0]);
  CHECK (par.level < QML, "replace callback with parent of level %d", par.level);
  p4est_quadrant_t **ch = co ? out : in;
  for (int i = 0; i < NCH; ++i)
    CHECK (leaf_of (ch[i]) == par.child (i), "replace callback: child %d is %s, expected %s", i, str (t, leaf_of (ch[i])).c_str (), str (t, par.child (i)).c_str ());
  for (int i = 0; i < no; ++i) { verify_data (r, p, t, out[i], "replace callback, outgoing"); r->outs[K (t, leaf_of (out[i]))]++; }
  for (int i = 0; i < ni; ++i) {
    Leaf l = leaf_of (in[i]);
    if (r->op->use_init) {
      CHECK (r->inits.count (K (t, l)), "replace callback: incoming %s was not initialized before", str (t, l).c_str ());
      verify_data (r, p, t, in[i], "replace callback, incoming");
    }
    r->ins[K (t, l)]++;
    put_data (r, p, t, in[i], r->op->rtag (t, l));
  }
}
static int cb_weight (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) {
  Runner *r = R (p); Leaf l = leaf_of (q);
  verify_data (r, p, t, q, "weight callback");
  r->order.push_back (K (t, l));
  return r->op->weight (t, l);
}

typedef std::map<Runner::LK, int> Count;
static std::string ks (const Runner::LK & k) { return str (k.t, Leaf { k.key, k.level, 0 }); }
static void same_counts (const Count & got, const Count & want, const char *what, int rank) {
  for (auto & e : want) {
    auto it = got.find (e.first);
    int n = it == got.end () ? 0 : it->second;
    CHECK (n == e.second, "process %d: %s called %d time(s) for %s, expected %d", rank, what, n, ks (e.first).c_str (), e.second);
  }
  for (auto & e : got) CHECK (want.count (e.first), "process %d: %s called for %s unexpectedly", rank, what, ks (e.first).c_str ());
  eng::checks (want.size ());
}
void Runner::create () {
  c = h.conn.make ();
  op = &h.newop; before = nullptr; after = &h.st[0];
  phase = 1;
  p = p4est_new_ext (MPI_COMM_WORLD, c, h.min_quads, h.new_level, h.fill, h.data_size, h.new_init ? cb_init : nullptr, this);
  phase = 0;
  CHECK (p->data_size == h.data_size && p->user_pointer == this && p->connectivity == c, "new: forest members not as given");
  compare (p, h.conn, after->f, after->cuts, true, "new");
  CHECK (p4est_is_valid (p), "new: forest not valid");
  CHECK (p4est_revision (p) == 0, "new: revision is %ld", p4est_revision (p));
  Count want;
  auto fl = flat (after->f);
  if (h.new_init) for (i64 i = after->cuts[rank]; i < after->cuts[rank + 1]; ++i) want[K (fl[i].tree, fl[i].l)] = 1;
  same_counts (inits, want, "initialization callback", rank);
  rev = 0;
}
void Runner::apply (int i) {
  op = &h.ops[i]; before = &h.st[i]; after = &h.st[i + 1];
  live.clear (); inits.clear (); outs.clear (); ins.clear (); asked.clear (); orphaned.clear (); order.clear ();
  auto fl = flat (before->f);
  i64 lo = before->cuts[rank], hi = before->cuts[rank + 1];
  for (i64 k = lo; k < hi; ++k) live[K (fl[k].tree, fl[k].l)] = fl[k].l.tag;
  p->user_pointer = this;
  p4est_init_t fi = op->use_init ? cb_init : nullptr;
  p4est_replace_t fr = op->use_replace ? cb_replace : nullptr;
  i64 shipped = -1;
  std::string ctx = "operation " + std::to_string (i + 1) + " (" + op->text () + ")";
  const char *cx = ctx.c_str ();
  bool revcheck = true;
  switch (op->kind) {
  case OP_REFINE:
    if (op->plain) p4est_refine (p, op->rec, cb_refine, fi);
    else p4est_refine_ext (p, op->rec, op->maxlevel, cb_refine, fi, fr);
    break;
  case OP_COARSEN:
    if (op->plain) p4est_coarsen (p, op->rec, cb_coarsen, fi);
    else p4est_coarsen_ext (p, op->rec, op->orphans, cb_coarsen, fi, fr);
    break;
  case OP_BALANCE:
  {
    p4est_inspect_t ins; memset (&ins, -1, sizeof ins);
    if (op->inspect) {
      int k = op->inspect - 1;
      ins.use_balance_ranges = k & 1; ins.use_balance_ranges_notify = (k >> 1) & 1; ins.use_balance_verify = (k >> 2) & 1;
      ins.balance_max_ranges = op->max_ranges; ins.balance_comm_sent = 0; ins.balance_comm_nzpeers = 0;
      p->inspect = &ins;
    }
    if (op->plain) p4est_balance (p, btype_of (op->codim), fi);
    else p4est_balance_ext (p, btype_of (op->codim), fi, fr);
    p->inspect = nullptr;
  }
    break;
  case OP_PARTITION:
    if (op->pmode == 2) {
      std::vector<p4est_locidx_t> n;
      for (int k = 0; k < h.cfg.P; ++k) n.push_back ((p4est_locidx_t) (op->given[k + 1] - op->given[k]));
      shipped = p4est_partition_given (p, n.data ());
      revcheck = false;
    }
    else if (op->plain) p4est_partition (p, op->pfc, op->pmode == 1 ? cb_weight : nullptr);
    else shipped = p4est_partition_ext (p, op->pfc, op->pmode == 1 ? cb_weight : nullptr);
    break;
  case OP_COPY: {
    p4est_t *n = p4est_copy (p, op->copy_data);
    CHECK (n->data_size == (op->copy_data ? before->data_size : 0), "%s: data size %zu", cx, n->data_size);
    CHECK (p4est_is_equal (p, n, op->copy_data), "%s: copy is not equal to its original", cx);
    p4est_destroy (p);
    p = n; rev = 0; p->user_pointer = this;
    break; }
  case OP_RESET: p4est_reset_data (p, op->data_size, fi, this); break;
  }
  CHECK (p->data_size == after->data_size, "%s: data size changed to %zu", cx, p->data_size);
  compare (p, h.conn, after->f, after->cuts, true, cx);
  CHECK (p4est_is_valid (p), "%s: forest not valid", cx);
  CHECK (p->user_pointer == this && p->connectivity == c, "%s: forest members were changed", cx);
  if (revcheck && op->kind != OP_COPY) {
    long want = rev + (after->revision - before->revision);
    CHECK (p4est_revision (p) == want, "%s: revision is %ld, expected %ld", cx, p4est_revision (p), want);
  }
  rev = p4est_revision (p);
  CHECK (op->kind != OP_COPY || rev == 0, "%s: revision of the copy is %ld", cx, rev);
  if (shipped >= 0) CHECK (shipped == after->shipped, "%s: reported %lld moved leaves, expected %lld", cx, (long long) shipped, (long long) after->shipped);

  /* callbacks */
  Count wasked, wcreated, wouts, worph, wfinal;
  int maxl = op->maxlevel < 0 ? (int) QML : op->maxlevel;
  if (op->kind == OP_REFINE) {
    std::function<void (int, const Leaf &, bool)> go = [&] (int t, const Leaf & l, bool top) {
      if (!top && !op->rec) return;
      wasked[K (t, l)]++;
      if (l.level < maxl && op->dec (t, l)) {
        wouts[K (t, l)]++;
        for (int k = 0; k < NCH; ++k) { wcreated[K (t, l.child (k))]++; go (t, l.child (k), false); }
      }
    };
    for (i64 k = lo; k < hi; ++k) go (fl[k].tree, fl[k].l, true);
    same_counts (asked, wasked, "refinement decision", rank);
    same_counts (inits, op->use_init ? wcreated : Count (), "initialization callback", rank);
    same_counts (outs, op->use_replace ? wouts : Count (), "replacement (outgoing)", rank);
    same_counts (ins, op->use_replace ? wcreated : Count (), "replacement (incoming)", rank);
  }
  else if (op->kind == OP_COARSEN) {
    for (i64 k = lo; k < hi;) {  /* per tree segment */
      i64 e = k; int t = fl[k].tree;
      while (e < hi && fl[e].tree == t) ++e;
      std::vector<Leaf> st;
      auto family = [&] (const Leaf * q) { if (q->level == 0) return false;
        for (int j = 0; j < NCH; ++j) if (q[j].level != q[0].level || q[j].childid () != j || q[j].parent ().key != q[0].parent ().key) return false; return true; };
      auto merge = [&] (const Leaf & first) { Leaf par = first.parent (); wcreated[K (t, par)]++; for (int j = 0; j < NCH; ++j) wouts[K (t, par.child (j))]++; return par; };
      if (op->rec)
        for (i64 j = k; j < e; ++j) {
          st.push_back (fl[j].l);
          while (st.size () >= NCH && family (&st[st.size () - NCH])) {
            Leaf par = st.back ().parent ();
            wasked[K (t, par)] = 1;
            if (!op->cdec (t, par)) break;
            merge (st.back ());
            st.resize (st.size () - NCH); st.push_back (par);
          }
        }
      else {
        for (i64 j = k; j < e; ++j) st.push_back (fl[j].l);
        for (size_t j = 0; j < st.size ();) {
          if (j + NCH <= st.size () && family (&st[j])) {
            wasked[K (t, st[j].parent ())] = 1;
            if (op->cdec (t, st[j].parent ())) { merge (st[j]); j += NCH; }
            else j++;   /* the siblings are looked at one by one */
          }
          else worph[K (t, st[j++])]++;
        }
      }
      k = e;
    }
    if (op->rec) {
      for (auto & e : wasked) CHECK (asked.count (e.first), "process %d: coarsening decision never asked for the family of %s", rank, ks (e.first).c_str ());
      for (auto & e : asked) CHECK (wasked.count (e.first), "process %d: coarsening decision asked for the family of %s unexpectedly", rank, ks (e.first).c_str ());
    }
    else {
      same_counts (asked, wasked, "coarsening decision", rank);
      same_counts (orphaned, op->orphans ? worph : Count (), "coarsening decision on an orphan", rank);
    }
    same_counts (inits, op->use_init ? wcreated : Count (), "initialization callback", rank);
    same_counts (outs, op->use_replace ? wouts : Count (), "replacement (outgoing)", rank);
    same_counts (ins, op->use_replace ? wcreated : Count (), "replacement (incoming)", rank);
  }
  else if (op->kind == OP_BALANCE) {
    for (i64 k = lo; k < hi; ++k) {
      int t = fl[k].tree;
      std::function<void (const Leaf &)> go = [&] (const Leaf & l) {
        int j = after->f.find (t, l.key);
        if (after->f.t[t][j].level == l.level) { if (!(l == fl[k].l)) wfinal[K (t, l)] = 1; return; }
        wouts[K (t, l)]++;
        for (int ch = 0; ch < NCH; ++ch) { wcreated[K (t, l.child (ch))]++; go (l.child (ch)); }
      };
      go (fl[k].l);
    }
    CHECK (asked.empty () && orphaned.empty (), "balance asked for decisions");
    same_counts (outs, op->use_replace ? wouts : Count (), "replacement (outgoing)", rank);
    same_counts (ins, op->use_replace ? wcreated : Count (), "replacement (incoming)", rank);
    if (op->use_init) {
      if (op->use_replace) same_counts (inits, wcreated, "initialization callback", rank);
      else {
        for (auto & e : wfinal) { auto it = inits.find (e.first); CHECK (it != inits.end (), "process %d: new leaf %s was never initialized", rank, ks (e.first).c_str ()); }
        for (auto & e : inits) { CHECK (wcreated.count (e.first), "process %d: initialization callback for %s, which is not new", rank, ks (e.first).c_str ());
          CHECK (e.second == 1, "process %d: initialization callback called %d times for %s", rank, e.second, ks (e.first).c_str ()); }
      }
    }
    else CHECK (inits.empty (), "initialization called without being passed");
  }
  else if (op->kind == OP_PARTITION) {
    CHECK (inits.empty () && asked.empty () && outs.empty (), "partition invoked callbacks");
    if (op->pmode == 1 && h.cfg.P > 1) {
      CHECK ((i64) order.size () == hi - lo, "process %d: weight callback called %zu times for %lld leaves", rank, order.size (), (long long) (hi - lo));
      Count w, g;
      for (i64 k = lo; k < hi; ++k) w[K (fl[k].tree, fl[k].l)]++;
      for (auto & k : order) g[k]++;
      same_counts (g, w, "weight callback", rank);
    }
  }
  else if (op->kind == OP_RESET) {
    Count w;
    if (op->use_init) for (i64 k = lo; k < hi; ++k) w[K (fl[k].tree, fl[k].l)]++;
    same_counts (inits, w, "initialization callback", rank);
  }
}
void Runner::finish () { if (p) p4est_destroy (p); if (c) p4est_connectivity_destroy (c); p = nullptr; c = nullptr; }
}
