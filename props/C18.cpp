/* Forests written to files and read back on any number of processes */
#include "conn_format.h"
#include <unistd.h>
#if VDIM == 3
#include <p8est_io.h>
#else
#include <p4est_io.h>
#endif
namespace DNS {
using namespace eng;
struct Saved { std::string s; size_t conn, head, leaves, rec; };
static Saved image (const Built & b, bool data, bool part) {
  Saved r; Bytes o; o.s = golden (b.conn, {}, 0);
  auto pad = [&] { while (o.s.size () % 32) o.s.push_back (0); };
  pad (); r.conn = o.s.size ();
  size_t ds = data ? b.data_size : 0; int P = b.cfg.P;
  o.u64v (DIM == 3 ? 0x3000009 : 0x2000009); o.u64v (4); o.u64v (sizeof (p4est_quadrant_t)); o.u64v (ds); o.u64v (ds > 0); o.u64v (part ? P : 1);
  if (part) for (int p = 0; p < P; ++p) o.u64v (b.cuts[p + 1]); else o.u64v (b.leaves.size ());
  i64 n = 0; for (auto & t : b.forest.t) o.u64v (n += (i64) t.size ());
  r.head = o.s.size (); pad (); r.leaves = o.s.size (); r.rec = 4 * (DIM + 1) + ds;
  std::vector<char> d (ds + 1);
  for (auto & g : b.leaves) {
    Pt p = deinterleave (g.l.key); int32_t q[4] = { (int32_t) p.x[0], (int32_t) p.x[1], (int32_t) p.x[2], 0 };
    q[DIM] = g.l.level; o.put (q, 4 * (DIM + 1));
    if (ds) { fill_bytes (d.data (), ds, b.tag (g.tree, g.l)); o.put (d.data (), ds); }
  }
  r.s = o.s; return r;
}
static std::string mask (std::string s) { for (size_t i = 8; i < 32 && i < s.size (); ++i) s[i] = 0; return s; }   /* package version */
struct Load { size_t dsize; bool data, autop, bcast; int how; };   /* how 0: load, 1: load_ext, 2: source of a file, 3: source of a buffer */
static const char TAIL[] = "more content";
static p4est_t *load (const Load & l, const char *fn, const std::string & img, void *up, p4est_connectivity_t ** c) {
  if (l.how == 0) return p4est_load (fn, MPI_COMM_WORLD, l.dsize, l.data, up, c);
  if (l.how == 1) return p4est_load_ext (fn, MPI_COMM_WORLD, l.dsize, l.data, l.autop, l.bcast, up, c);
  sc_array_t *a = nullptr; sc_io_source_t *s;
  if (l.how == 3) { a = sc_array_new_count (1, img.size ()); memcpy (a->array, img.data (), img.size ()); s = sc_io_source_new (SC_IO_TYPE_BUFFER, SC_IO_ENCODE_NONE, a); }
  else s = sc_io_source_new (SC_IO_TYPE_FILENAME, SC_IO_ENCODE_NONE, fn);
  CHECK (s != nullptr, "no source");
  p4est_t *p = p4est_source_ext (s, MPI_COMM_WORLD, l.dsize, l.data, l.autop, l.bcast, up, c);
  if (p && img.size () > sizeof TAIL && !img.compare (img.size () - sizeof TAIL, sizeof TAIL, TAIL, sizeof TAIL) && (!l.bcast || sim::rank () == 0)) {
    char t[sizeof TAIL];
    CHECK (sc_io_source_read (s, t, sizeof t, nullptr) == 0 && !memcmp (t, TAIL, sizeof t), "process %d: the source is not at the end of the forest", sim::rank ());
  }
  sc_io_source_destroy (s); if (a) sc_array_destroy (a);
  return p;
}
/* contents that no forest has must not be loaded */
static void bad (Built & b) {
  bool data = b.data_size > 0 && draw (2), part = draw (2);
  Saved g = image (b, data, part); std::string s = g.s;
  size_t ds = data ? b.data_size : 0, n = b.leaves.size (); i64 i = (i64) draw (n); size_t at = g.leaves + i * g.rec;
  auto putw = [&] (size_t o, int32_t v) { memcpy (&s[o], &v, 4); };
  auto putq = [&] (size_t o, u64 v) { memcpy (&s[o], &v, 8); };
  const GL & l = b.leaves[i]; bool missing = false;
  Load ld { ds, data, !part || draw (2) != 0, draw (2) != 0, (int) weighted ({ 0, 50, 30, 20 }) };
  int P = part && !ld.autop ? b.cfg.P : range (1, 4);
  const char *what = "";
  switch (draw (11)) {
  case 0: what = "file cut in the coarse mesh"; s.resize (draw (g.conn)); break;
  case 1: what = "file cut in the header"; s.resize (g.conn + draw (g.head - g.conn)); break;
  case 2: what = "other format"; putq (g.conn, 0x2000008 + 0x1000000 * (u64) (DIM - 2) + 2 * draw (2)); break;
  case 3: what = "other size of coordinates or leaves"; putq (g.conn + 8 * (1 + draw (2)), 3 + draw (1)); break;
  case 4: what = "leaf count of the last tree"; putq (g.head - 8, n + 1 + draw (4)); break;
  case 5: what = "data size"; if (!ds) discard (); if (draw (2)) ld.dsize += 1; else putq (g.conn + 24, ds + 1); break;
  case 6: what = "level out of range"; { int v[] = { QML + 1, QML + 2, -1, 127, -128, ML }; putw (at + 4 * DIM, v[draw (6)]); } break;
  case 7: what = "misaligned leaf"; if (l.l.level > QML - 1 && qlen (l.l.level) < 2) discard (); putw (at + 4 * draw (DIM), (int32_t) deinterleave (l.l.key).x[0] + 1); break;
  case 8: what = "leaf twice"; if (n < 2) discard (); if (i == 0) i = 1, at = g.leaves + g.rec; s.replace (at, 4 * (DIM + 1), s.substr (at - g.rec, 4 * (DIM + 1))); break;
  case 9: what = "other level"; putw (at + 4 * DIM, l.l.level + (l.l.level > 0 && draw (2) ? -1 : 1)); if (l.l.level == QML) discard (); break;
  case 10: what = "no file"; missing = true; ld.how = 1; break;
  }
  if (s == g.s && !missing && ld.dsize == ds) discard ();
  label ("refused: %s", what); nontrivial ();
  describe ("%s (leaf %lld), %zu bytes; ", what, (long long) i, s.size ());
  sim::Config cfg = b.cfg; cfg.P = P;
  if (!missing) write_file ("bad.p4d", s);
  Attempt a = attempt ([&] {
    sim::run (cfg, [&] (int) { p4est_connectivity_t *c = nullptr; load (ld, missing ? "nofile.p4d" : "bad.p4d", s, nullptr, &c); });
  });
  unlink ("bad.p4d");
  CHECK (a != Attempt::RETURNED, "a file with invalid contents (%s) is loaded as a forest", what);
  CHECK (a == Attempt::ABORTED, "loading a file with invalid contents (%s) %s", what, a == Attempt::HANGS ? "does not end" : "is a memory error");
}
void prop () {
  Built b; BuildOpts o; o.balance_any = true; o.maxleaves = thorough () ? 700 : 250;
  draw_built (b, o);
  if (chance (8)) { bad (b); return; }
  bool data = draw (4) != 0, part = draw (2), plain = part && draw (2), again = chance (30);
  size_t ds = data ? b.data_size : 0;
  Saved g = image (b, data, part);
  int P2 = chance (35) ? b.cfg.P : draw_P (13);
  Load ld;
  ld.how = weighted ({ 15, 40, 25, 20 });
  ld.autop = P2 != (part ? b.cfg.P : 1) || draw (2);
  if (ld.autop && ld.how == 0) ld.how = 1;
  if (ld.how == 0) ld.autop = false;
  ld.bcast = draw (2);
  ld.data = ds > 0 && draw (4) != 0;
  ld.dsize = ld.data ? ds : (size_t[]) { 0, ds, 8, 3 } [draw (4)];
  bool tail = ld.how >= 2 && draw (2);
  if (b.leaves.size () > 1 && (P2 > 1 || b.cfg.P > 1)) nontrivial ();
  label ("%s", ld.how == 0 ? "load" : ld.how == 1 ? "load_ext" : "source");
  if (P2 != b.cfg.P) label ("other process count");
  if (ld.data) label ("data loaded"); else if (ds) label ("data skipped");
  describe ("save data %zu%s, load on %d%s%s data %zu%s; ", ds, part ? " partition" : "", P2, ld.autop ? " auto" : "", ld.bcast ? " bcast" : "", ld.dsize, ld.data ? "" : " unread");
  MemMark mm = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    if (again) p4est_save_ext ("f.p4d", p, !data, !part);   /* is overwritten */
    sim::host_barrier ();
    if (plain) p4est_save ("f.p4d", p, data); else p4est_save_ext ("f.p4d", p, data, part);
    std::string s = file_bytes ("f.p4d");
    if (mask (s) != mask (g.s)) {
      size_t i = 0; std::string x = mask (s), y = mask (g.s); while (i < x.size () && i < y.size () && x[i] == y[i]) ++i;
      fail ("process %d: the file has %zu bytes, expected %zu, and differs at %zu (header at %zu, leaves at %zu)", me, s.size (), g.s.size (), i, g.conn, g.leaves);
    }
    checks (b.leaves.size ());
    sim::host_barrier ();
    compare (p, b, "after saving"); destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.files == 0, "left behind by save: %s", rep.text ().c_str ());
  mem_check (mm, "after saving");
  std::string img = g.s;
  if (tail) { img.append (TAIL, sizeof TAIL); }
  if (tail || draw (2)) write_file ("f.p4d", img);          /* the file of the model */
  Cuts cuts = ld.autop || !part ? uniform_cuts ((i64) b.leaves.size (), P2) : b.cuts;
  sim::Config cfg = b.cfg; cfg.P = P2; cfg.seed = mix (cfg.seed, 7);
  int up = 0;
  sim::run (cfg, [&] (int me) {
    p4est_connectivity_t *c = nullptr;
    p4est_t *p = load (ld, "f.p4d", img, &up, &c);
    CHECK (p != nullptr && c != nullptr && p->connectivity == c, "process %d: nothing loaded", me);
    CHECK (p->user_pointer == &up && p->revision == 0 && p4est_revision (p) == 0, "process %d: user pointer or revision", me);
    CHECK (p->data_size == ld.dsize && (p->user_data_pool == nullptr) == (ld.dsize == 0), "process %d: loaded with data size %zu, asked for %zu", me, p->data_size, ld.dsize);
    CHECK (p4est_is_valid (p), "loaded forest is not valid");
    compare (p, b.conn, b.forest, cuts, ld.data, "after loading");
    destroy (p);
  }, &rep);
  CHECK (rep.messages == 0 && rep.requests == 0 && rep.files == 0, "left behind by load: %s", rep.text ().c_str ());
  mem_check (mm, "after loading");
  unlink ("f.p4d");
}
}
