/* Refinement: the decisions, the callbacks and the data of every refined leaf */
#include "hist_common.h"
namespace DNS {
using namespace eng;
void prop () {
  History h; HistOpts o;
  o.w[OP_REFINE] = 70; o.w[OP_COARSEN] = 5; o.w[OP_BALANCE] = 5; o.w[OP_PARTITION] = 15; o.w[OP_COPY] = 2; o.w[OP_RESET] = 3;
  o.maxops = 4;
  if (thorough ()) { o.maxops = 8; o.maxleaves = 2500; }
  draw_history (h, o);
  if (effective (h, OP_REFINE)) nontrivial ();
  run_history (h);
}
}
