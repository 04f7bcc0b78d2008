/* Property-based testing engine: choice sequences, forked batches, shrinking. */
#ifndef ENGINE_H
#define ENGINE_H
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace eng {

/* ---- drawing (only while a case is planned, never from callbacks) ---- */
uint64_t draw (uint64_t n);     /* uniform in [0, n); shrinks towards 0 */
uint64_t draw64 ();             /* any 64-bit value, small ones more likely than uniform */
inline int range (int lo, int hi) { return hi <= lo ? lo : lo + (int) draw ((uint64_t) (hi - lo) + 1); }
inline bool chance (int percent) { return (int) draw (100) >= 100 - percent; }
/* index drawn with the given weights; shrinks towards the first */
int weighted (std::initializer_list<int> w);
template <class T> const T & pick (const std::vector<T> & v) { return v[draw (v.size ())]; }

/* ---- outcome ---- */
[[noreturn]] void fail (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
[[noreturn]] void internal (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
[[noreturn]] void discard ();   /* only in the planning phase */
void label (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void nontrivial ();             /* this case counts as non-trivial */
void describe (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
uint64_t checks (uint64_t n = 1); /* count individual oracle comparisons */
bool thorough ();
bool is_fuzz ();
void fresh_scratch ();          /* empty the private directory of this case */
const char *scratch ();         /* private directory of this worker */
bool asan ();
/* run fn in a child process that may abort: a failed check in fn fails the case */
enum class Attempt { RETURNED, ABORTED, CRASHED, HANGS };
Attempt attempt (const std::function<void ()> & fn);

/* ---- stateless hashing for callbacks ---- */
inline uint64_t mix (uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t mix (uint64_t a, uint64_t b) { return mix (mix (a) ^ (b + 0x632be59bd9b4e019ull)); }
inline uint64_t mix (uint64_t a, uint64_t b, uint64_t c) { return mix (mix (a, b), c); }

}

#define CHECK(cond, ...) do { if (!(cond)) eng::fail (__VA_ARGS__); eng::checks (1); } while (0)

/* provided by the property */
extern "C" {
extern const char *prop_id;
void prop_case ();              /* one complete case: draw, run, check */
void prop_init () __attribute__ ((weak)); /* once per process */
}
#endif
