/* Binds one property (compiled once per dimension) to the engine. */
#include "engine.h"
#define STR2(x) #x
#define STR(x) STR2 (x)
#ifdef HAVE2
namespace d2 { void prop (); void lib_init (); }
#endif
#ifdef HAVE3
namespace d3 { void prop (); void lib_init (); }
#endif
#ifndef WEIGHT3
#define WEIGHT3 50
#endif
extern "C" {
const char *prop_id = STR (PROP_ID);
void prop_init () {
#ifdef HAVE2
  d2::lib_init ();
#else
  d3::lib_init ();
#endif
}
void prop_case () {
#if defined HAVE2 && defined HAVE3
  if (eng::draw (100) < 100 - WEIGHT3) d2::prop (); else d3::prop ();
#elif defined HAVE2
  d2::prop ();
#else
  d3::prop ();
#endif
}
}

/* durability is not observed here */
extern "C" int fsync (int) { return 0; }
/* the library pauses before it aborts */
extern "C" unsigned sleep (unsigned) { return 0; }
/* the support library's allocation functions (see --wrap in run.py): exact sizes, so that the address sanitizer sees
 * every access beyond them, and a count of live blocks per package */
#include <cstdlib>
#include <cstring>
extern "C" {
static int live_blocks[80];
static int &blocks (int package) { return live_blocks[package >= -1 && package < 78 ? package + 1 : 79]; }
void *__wrap_sc_malloc (int package, size_t n) { void *p = malloc (n); if (p) ++blocks (package); return p; }
void *__wrap_sc_calloc (int package, size_t m, size_t n) { void *p = calloc (m, n); if (p) ++blocks (package); return p; }
void __wrap_sc_free (int package, void *p) { if (p) { --blocks (package); free (p); } }
void *__wrap_sc_realloc (int package, void *p, size_t n) {
  if (!p) return __wrap_sc_malloc (package, n);
  if (!n) { __wrap_sc_free (package, p); return NULL; }
  return realloc (p, n);
}
char *__wrap_sc_strdup (int package, const char *s) { if (!s) return NULL; size_t n = strlen (s) + 1; char *p = (char *) __wrap_sc_malloc (package, n); if (p) memcpy (p, s, n); return p; }
int __wrap_sc_memory_status (int package) { return blocks (package); }
}
