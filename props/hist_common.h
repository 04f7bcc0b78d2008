#ifndef HIST_COMMON_H
#define HIST_COMMON_H
#include "history.h"
namespace DNS {
/* run one history for real; every step is compared with the model by the Runner */
inline void run_history (const History & h, const std::function<void (Runner &, int)> & after = nullptr) {
  MemMark mm = mem_mark ();
  sim::Report rep;
  sim::run (h.cfg, [&] (int) {
    Runner r (h);
    r.create ();
    if (after) after (r, -1);
    for (int i = 0; i < (int) h.ops.size (); ++i) { r.apply (i); if (after) after (r, i); sim::host_barrier (); }
    r.finish ();
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
  mem_check (mm, "after destroying the forest");
}
/* does some operation of this kind change the forest */
inline bool effective (const History & h, int kind) {
  for (size_t i = 0; i < h.ops.size (); ++i)
    if ((kind < 0 || h.ops[i].kind == kind) && (h.st[i].f.count () != h.st[i + 1].f.count () || h.st[i].cuts != h.st[i + 1].cuts)) return true;
  return false;
}
}
#endif
