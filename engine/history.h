/* Histories of forest operations: drawn and predicted by the model, then run for real. */
#ifndef HISTORY_H
#define HISTORY_H
#include "harness.h"
namespace DNS {

enum OpKind { OP_REFINE, OP_COARSEN, OP_BALANCE, OP_PARTITION, OP_COPY, OP_RESET, N_OP };
struct Op {
  int kind = OP_REFINE;
  Dec dec; bool rec = false; int maxlevel = -1;
  CDec cdec; bool orphans = false;
  int codim = 1; int inspect = 0, max_ranges = 0;
  int pmode = 0;                /* 0 uniform, 1 weighted, 2 given */
  bool pfc = false; int wmode = 0; u64 seed = 0; Cuts given;
  bool use_init = true, use_replace = false, plain = false, copy_data = true;
  size_t data_size = 0;
  u64 itag (int t, const Leaf & l) const { return mix (seed * 2 + 1, mix ((u64) t, kh (l.key), (u64) l.level)) | 1; }
  u64 rtag (int t, const Leaf & l) const { return mix (seed * 2 + 2, mix ((u64) t, kh (l.key), (u64) l.level)) | 1; }
  u64 newtag (int t, const Leaf & l) const { return use_replace ? rtag (t, l) : use_init ? itag (t, l) : 0; }
  int weight (int t, const Leaf & l) const;
  std::string text () const;
};
struct State { Forest f; Cuts cuts; long revision = 0; size_t data_size = 0; i64 shipped = 0; bool revknown = true; };
struct History {
  History () { } History (const History &) = delete; History & operator= (const History &) = delete;
  Conn conn; sim::Config cfg;
  int new_level = 0, min_quads = 0; bool fill = true, new_init = true; size_t data_size = 0;
  Op newop;                     /* only its tags */
  std::vector<Op> ops; std::vector<State> st;   /* st[i] before ops[i], st.back () final */
};
struct HistOpts {
  int maxP = 17, minops = 1, maxops = 6; i64 maxleaves = 900; int maxtrees = 40;
  int w[N_OP] = { 30, 18, 14, 26, 6, 6 };
  bool partition_independent = false;
  bool given_only_uniform_new = false;
};
void draw_history (History & h, const HistOpts & o);
/* predict: fills h.st from h.conn, h.cfg.P, and the operations; false if a cap is exceeded */
bool apply_model (const State & s, const Op & op, int P, i64 cap, State & out);
State new_state (const History & h, int P);
Cuts weighted_cuts (const std::vector<i64> & w, int P);
Cuts family_cuts (const Forest & f, const Cuts & c, i64 *moved);
CDec dummy_cdec ();

/* real execution, per process; the callbacks are checked while they run */
struct Runner {
  const History & h; int rank; p4est_t *p = nullptr; p4est_connectivity_t *c = nullptr;
  const Op *op = nullptr; const State *before = nullptr, *after = nullptr;
  int phase = 0;
  struct LK { int t; Key key; int level; bool operator< (const LK & o) const { return t != o.t ? t < o.t : key != o.key ? key < o.key : level < o.level; } };
  std::map<LK, u64> live;      /* current tag by leaf */
  std::map<LK, int> inits, outs, ins, asked, orphaned;
  std::vector<LK> order;       /* quadrants in the order of the weight function or of init in new */
  Runner (const History & hh) : h (hh), rank (sim::rank ()) { }
  void create ();
  void apply (int i);           /* runs ops[i] from st[i] to st[i + 1] and compares */
  void finish ();
  long rev = 0;
};
}
#endif
