#ifndef CONN_FORMAT_H
#define CONN_FORMAT_H
/* The coarse mesh as written to disk */
#include "harness.h"
namespace DNS {
using eng::mix;
/* the format by its version number */
struct Bytes { std::string s; void put (const void *p, size_t n) { s.append ((const char *) p, n); } template <class T> void vec (const std::vector<T> & v) { put (v.data (), v.size () * sizeof (T)); } void u64v (u64 v) { put (&v, 8); } };
static const char *const MAGIC = DIM == 3 ? "p8est" : "p4est";
inline std::string golden (const Conn & k, const std::vector<char> & attr, size_t ab) {
  Bytes b; char m[8] = { 0 }, ver[24] = { 0 };
  memcpy (m, MAGIC, 5); b.put (m, 8); b.put (ver, 24);
  int net = k.ne ? k.ett_off[k.ne] : 0, nct = k.nc ? k.ctt_off[k.nc] : 0;
  b.u64v (DIM == 3 ? 0x3000009 : 0x2000009); b.u64v (4); b.u64v (k.nv); b.u64v (k.nt); b.u64v (k.ne); b.u64v (net); b.u64v (k.nc); b.u64v (nct); b.u64v (ab); b.u64v (0);
  if (k.nv) b.vec (k.vertices);
  if (k.ne) b.vec (k.tte);
  if (k.nv) b.vec (k.ttv);
  if (k.nc) b.vec (k.ttc);
  b.vec (k.ttt); b.vec (k.ttf);
  if (ab) b.vec (attr);
  if (DIM == 3) { b.vec (k.ett_off); if (k.ne) { b.vec (k.ett); b.vec (k.ete); } }
  b.vec (k.ctt_off); if (k.nc) { b.vec (k.ctt); b.vec (k.ctc); }
  return b.s;
}
inline std::string bytes_of (sc_array_t * a) { return std::string (a->array, a->elem_count); }
inline std::string file_bytes (const char *n) { std::string r; FILE *f = fopen (n, "rb"); if (!f) return "?"; char b[4096]; size_t k; while ((k = fread (b, 1, sizeof b, f)) > 0) r.append (b, k); fclose (f); return r; }
inline void write_file (const char *n, const std::string & s) { FILE *f = fopen (n, "wb"); if (!f || fwrite (s.data (), 1, s.size (), f) != s.size () || fclose (f)) eng::internal ("cannot write %s", n); }
}
#endif
