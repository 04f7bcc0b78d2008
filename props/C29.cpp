/* Visualization output: written by all processes, parsed back and compared with the model */
#include "harness.h"
#include <mpi.h>
#include <zlib.h>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#if VDIM == 3
#include <p8est_vtk.h>
#else
#include <p4est_vtk.h>
#include <p6est.h>
#include <p6est_extended.h>
#include <p6est_vtk.h>
#endif
namespace DNS {
using namespace eng;
using DNS::str;
typedef std::array<double, 3> V3;

/* ------------------------------------------------------------- reading */
struct Xml {
  std::string tag, text; std::map<std::string, std::string> a; std::vector<Xml> c;
  const Xml *child (const std::string & t) const { const Xml *r = nullptr; for (auto & x : c) if (x.tag == t) { if (r) return nullptr; r = &x; } return r; }
  std::string at (const std::string & k) const { auto i = a.find (k); return i == a.end () ? "" : i->second; }
};
struct Reader {
  std::string s, file; size_t i = 0;
  void bad (const char *w) const { fail ("%s is not well formed: %s at byte %zu", file.c_str (), w, i); }
  void ws () { while (i < s.size () && isspace ((unsigned char) s[i])) ++i; }
  std::string name () { size_t b = i; while (i < s.size () && (isalnum ((unsigned char) s[i]) || s[i] == '_' || s[i] == '-' || s[i] == ':')) ++i; if (b == i) bad ("name expected"); return s.substr (b, i - b); }
  Xml element () {
    Xml x; if (i >= s.size () || s[i] != '<') bad ("element expected"); ++i; x.tag = name ();
    for (;;) {
      ws (); if (i >= s.size ()) bad ("end of file in a tag");
      if (s[i] == '/') { ++i; if (i >= s.size () || s[i] != '>') bad ("> expected"); ++i; return x; }
      if (s[i] == '>') { ++i; break; }
      std::string n = name (); ws (); if (i >= s.size () || s[i] != '=') bad ("= expected"); ++i; ws (); if (i >= s.size () || s[i] != '"') bad ("quote expected"); size_t e = s.find ('"', ++i); if (e == std::string::npos) bad ("open quote");
      if (x.a.count (n)) bad ("attribute twice"); x.a[n] = s.substr (i, e - i); i = e + 1;
    }
    for (;;) {
      size_t e = s.find ('<', i); if (e == std::string::npos) bad ("element not closed");
      x.text += s.substr (i, e - i); i = e;
      if (s.compare (i, 2, "</") == 0) { i += 2; if (name () != x.tag) bad ("closing tag differs"); ws (); if (i >= s.size () || s[i] != '>') bad ("> expected"); ++i; return x; }
      x.c.push_back (element ());
    }
  }
  Xml document () { ws (); if (s.compare (i, 5, "<?xml") == 0) { i = s.find ("?>", i); if (i == std::string::npos) { i = 0; bad ("declaration not closed"); } i += 2; } ws (); Xml x = element (); ws (); if (i != s.size ()) bad ("content after the end"); return x; }
};
static bool slurp (const std::string & f, std::string & out) { FILE *h = fopen (f.c_str (), "rb"); if (!h) return false; char b[65536]; size_t n; out.clear (); while ((n = fread (b, 1, sizeof b, h)) > 0) out.append (b, n); fclose (h); return true; }
static std::string base64 (const std::string & t, size_t & pos, const std::string & where) { /* up to and including the padding */
  std::string o; unsigned acc = 0; int n = 0, pad = 0; size_t used = 0;
  for (; pos < t.size (); ++pos) {
    unsigned char ch = (unsigned char) t[pos]; int v;
    if (ch == '\n' || ch == '\r') continue;
    if (ch >= 'A' && ch <= 'Z') v = ch - 'A'; else if (ch >= 'a' && ch <= 'z') v = ch - 'a' + 26; else if (ch >= '0' && ch <= '9') v = ch - '0' + 52; else if (ch == '+') v = 62; else if (ch == '/') v = 63;
    else if (ch == '=') { ++pad; ++used; ++pos; while (pos < t.size () && t[pos] == '=') { ++pad; ++used; ++pos; } break; }
    else fail ("%s: byte %d is not base64", where.c_str (), ch);
    acc = acc << 6 | (unsigned) v; ++used; if (++n == 4) { o += (char) (acc >> 16); o += (char) (acc >> 8); o += (char) acc; n = 0; acc = 0; }
  }
  CHECK (used % 4 == 0 && pad <= 2, "%s: base64 data of %zu characters", where.c_str (), used);
  if (n == 3) { o += (char) (acc >> 10); o += (char) (acc >> 2); } else if (n == 2) o += (char) (acc >> 4); else CHECK (n == 0, "%s: base64 data end early", where.c_str ());
  return o;
}
static uint32_t u32 (const std::string & s, size_t i) { uint32_t v; CHECK (4 * i + 4 <= s.size (), "the data header is too short"); memcpy (&v, s.data () + 4 * i, 4); return v; }
static std::string strip (const std::string & s) { size_t a = 0, b = s.size (); while (a < b && isspace ((unsigned char) s[a])) ++a; while (b > a && isspace ((unsigned char) s[b - 1])) --b; return s.substr (a, b - a); }
/* numbers of a data array as doubles */
static std::vector<double> numbers (const Xml & x, bool compressed, const std::string & where) {
  std::string type = x.at ("type"), fmt = x.at ("format"), w = where + " array " + x.at ("Name"); std::vector<double> o;
  if (fmt == "ascii") { const char *p = x.text.c_str (); for (;;) { char *e; double v = strtod (p, &e); if (e == p) break; o.push_back (v); p = e; } CHECK (strip (p).empty (), "%s: not a number", w.c_str ()); return o; }
  CHECK (fmt == "binary", "%s: format %s", w.c_str (), fmt.c_str ());
  std::string t = strip (x.text), raw; size_t pos = 0;
  if (!compressed) { raw = base64 (t, pos, w); uint32_t n = u32 (raw, 0); raw = raw.substr (4); CHECK (raw.size () == n, "%s: %zu bytes, %u announced", w.c_str (), raw.size (), n); }
  else {
    /* the number of blocks tells the length of the header */
    size_t q = 0; std::string head = base64 (t.substr (0, 8), q, w); uint32_t nb = u32 (head, 0); CHECK (nb < 100000, "%s: %u blocks", w.c_str (), nb); size_t hl = ((3 + nb) * 4 + 2) / 3 * 4; CHECK (t.size () >= hl, "%s: header cut", w.c_str ());
    q = 0; head = base64 (t.substr (0, hl), q, w); CHECK (head.size () == (3 + nb) * 4, "%s: header of %zu bytes for %u blocks", w.c_str (), head.size (), nb);
    uint32_t bs = u32 (head, 1), ls = u32 (head, 2); size_t tot = 0; for (uint32_t b = 0; b < nb; ++b) tot += u32 (head, 3 + b);
    q = 0; std::string body = base64 (t.substr (hl), q, w); CHECK (body.size () == tot, "%s: %zu compressed bytes, %zu announced", w.c_str (), body.size (), tot);
    size_t at = 0;
    for (uint32_t b = 0; b < nb; ++b) { uLongf want = b + 1 == nb && ls ? ls : bs, got = want; std::string u (want ? want : 1, 0); int r = uncompress ((Bytef *) u.data (), &got, (const Bytef *) body.data () + at, u32 (head, 3 + b)); CHECK (r == Z_OK && got == want, "%s: block %u does not uncompress to %lu bytes", w.c_str (), b, want); u.resize (want); raw += u; at += u32 (head, 3 + b); }
    CHECK (strip (t.substr (hl + q)).empty (), "%s: characters after the data", w.c_str ());
  }
  size_t sz = type == "Int32" || type == "Float32" ? 4 : type == "Int64" || type == "Float64" ? 8 : type == "UInt8" || type == "Int8" ? 1 : 0;
  CHECK (sz && raw.size () % sz == 0, "%s: %zu bytes of type %s", w.c_str (), raw.size (), type.c_str ());
  for (size_t i = 0; i < raw.size (); i += sz) { const char *p = raw.data () + i; double v; if (type == "Int32") { int32_t y; memcpy (&y, p, 4); v = y; } else if (type == "Int64") { i64 y; memcpy (&y, p, 8); v = (double) y; } else if (type == "Float32") { float y; memcpy (&y, p, 4); v = y; } else if (type == "Float64") memcpy (&v, p, 8); else v = type == "UInt8" ? (unsigned char) *p : *p; o.push_back (v); }
  return o;
}
static std::vector<std::string> split (const std::string & s) { std::vector<std::string> o; size_t b = 0; if (s.empty ()) return o; for (;;) { size_t e = s.find (',', b); o.push_back (s.substr (b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) return o; b = e + 1; } }

/* ------------------------------------------------------------- writing */
static u64 gseed;
static void geo_x (p4est_geometry_t *, p4est_topidx_t t, const double abc[3], double xyz[3]) {
  double z = DIM == 3 ? abc[2] : 0.;
  xyz[0] = 2 * t + abc[0] + .25 * abc[1] * abc[1]; xyz[1] = abc[1] - .5 * abc[0] * z + (double) (gseed % 7); xyz[2] = z * (1 + abc[0]) + .125 * abc[0] * abc[1];
}
static V3 position (const Conn & c, bool geo, int t, const V3 & r) {
  V3 o { { 0, 0, 0 } };
  if (geo) { geo_x (nullptr, t, r.data (), o.data ()); return o; }
  for (int k = 0; k < NCH; ++k) { double w = 1; for (int a = 0; a < DIM; ++a) w *= (k >> a) & 1 ? r[a] : 1 - r[a]; for (int j = 0; j < 3; ++j) o[j] += w * c.vertices[3 * c.ttv[t * NCH + k] + j]; }
  return o;
}
struct Field { std::string name; bool vec, point, cont; u64 seed; };
static double value (const Field & f, u64 what, int j) { u64 h = mix (f.seed, what, (u64) j); double v = (double) (i64) (h >> 20) / 1048576.; switch (h & 15) { case 0: return 0; case 1: return -v * 1e-30; case 2: return v * 1e20; default: return h & 16 ? -v : v; } }
/* order of the points of a Lagrange cell, from the description of the file format */
static int lagrange (const int *ix, int n) {
  int o = n - 1, inside = o - 1; bool bd[3]; int nb = 0; for (int a = 0; a < DIM; ++a) { bd[a] = ix[a] == 0 || ix[a] == o; nb += bd[a]; }
  static const int cc[8] = { 0, 1, 3, 2, 4, 5, 7, 6 };
  int at = 0, corner = 0; for (int a = 0; a < DIM; ++a) corner |= (ix[a] ? 1 : 0) << a;
  if (nb == DIM) return cc[corner];
  at = NCH;
  /* edges around the bottom face, around the top, then upright */
  struct E { int axis, c[3]; };
  static const E ed[12] = { { 0, { -1, 0, 0 } }, { 1, { 1, -1, 0 } }, { 0, { -1, 1, 0 } }, { 1, { 0, -1, 0 } }, { 0, { -1, 0, 1 } }, { 1, { 1, -1, 1 } }, { 0, { -1, 1, 1 } }, { 1, { 0, -1, 1 } }, { 2, { 0, 0, -1 } }, { 2, { 1, 0, -1 } }, { 2, { 0, 1, -1 } }, { 2, { 1, 1, -1 } } };
  int ned = DIM == 3 ? 12 : 4;
  if (nb == DIM - 1) for (int e = 0; e < ned; ++e) { bool ok = !bd[ed[e].axis]; for (int a = 0; a < DIM; ++a) if (a != ed[e].axis) ok = ok && ix[a] == ed[e].c[a] * o; if (ok) return at + e * inside + ix[ed[e].axis] - 1; }
  at += ned * inside;
  if (DIM == 2) return at + (ix[1] - 1) * inside + ix[0] - 1;
  if (nb == 1) for (int a = 0; a < 3; ++a) if (bd[a]) { int u = a == 0 ? 1 : 0, v = a == 2 ? 1 : 2; return at + (2 * a + (ix[a] ? 1 : 0)) * inside * inside + (ix[v] - 1) * inside + ix[u] - 1; }
  return at + 6 * inside * inside + ((ix[2] - 1) * inside + ix[1] - 1) * inside + ix[0] - 1;
}
static p4est_vtk_context_t *cellv (p4est_vtk_context_t * k, int t, int l, int r, int w, int ns, int nv, ...) { va_list ap; va_start (ap, nv); k = p4est_vtk_write_cell_datav (k, t, l, r, w, ns, nv, ap); va_end (ap); return k; }
static int open_files () { int n = 0; DIR *d = opendir ("/proc/self/fd"); while (d && readdir (d)) ++n; if (d) closedir (d); return n; }
static std::set<std::string> listing (const std::string & dir) { std::set<std::string> o; DIR *d = opendir (dir.c_str ()); if (!d) return o; while (auto *e = readdir (d)) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) o.insert (e->d_name); closedir (d); return o; }

#if VDIM == 2
/* ------------------------------------------- forests of layers (p6est) */
struct Layer { i64 z; int level; };
static u64 lseed; static int lmax;
static bool splits (int t, i64 x, i64 y, i64 z, int level) { return level < lmax && mix (mix (lseed, (u64) t, (u64) level), mix ((u64) x, (u64) y), (u64) z) % 5 < 2; }
static int cb_layer (p6est_t *, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * q) { return splits (t, c->x, c->y, q->z, q->level); }
static void layers_of (const GL & g, i64 z, int level, std::vector<Layer> & o) { Pt x = deinterleave (g.l.key); if (!splits (g.tree, x.x[0], x.x[1], z, level)) { o.push_back ({ z, level }); return; } for (int k = 0; k < 2; ++k) layers_of (g, z + k * (qlen (level) / 2), level + 1, o); }
static void sheet () {
  BuildOpts o; o.maxP = thorough () ? 13 : 7; o.maxleaves = 150; o.need_vertices = true; o.maxtrees = 24; o.maxdeep = chance (80) ? 6 : QML; o.balance_any = chance (30);
  Built b; draw_built (b, o); int P = b.cfg.P; const Conn & conn = b.conn; lseed = draw64 (); lmax = range (0, 5); int minz = range (0, 2); bool topv = chance (40), plain = chance (25), all_in_one = chance (25); double hgt[3] = { (double) range (-3, 3), chance (50) ? .5 : 0., 1.25 }; std::vector<double> tv; for (size_t i = 0; topv && i < conn.vertices.size (); ++i) tv.push_back (conn.vertices[i] + (double) range (0, 9) * .125 + (i % 3 == 2));
  std::vector<std::vector<Layer>> ls; size_t nl = 0; for (auto & g : b.leaves) { ls.emplace_back (); for (i64 k = 0; k < (i64) 1 << minz; ++k) layers_of (g, k * qlen (minz), minz, ls.back ()); nl += ls.back ().size (); if (nl > 6000) discard (); }
  static const double sc[] = { 1., .95, .5, 1e-3, 0. }; double scale = plain ? 1. : sc[draw (5)]; bool wt = plain || chance (60), wr = plain || chance (60); int wrap = plain ? 0 : chance (40) ? range (1, P + 1) : 0; int nf = plain ? 0 : range (0, 4); u64 fs = draw64 ();
  std::vector<std::string> name; static const char *stem[] = { "u", "velocity", "p4est_x", "Temperature-2", "a.b", "x y", "%s", "field" }; for (int i = 0; i < nf; ++i) name.push_back (std::string (stem[draw (8)]) + "_" + std::to_string (i));
  int fault = plain || all_in_one ? 0 : weighted ({ 70, 8, 8, 14 }), early = range (0, nf), openwhat = (int) draw (4);
  static const char *names[] = { "out", "a.b", "./x", "dir/mesh", "p%d", "dir/../dir/z z" }; std::string fn = names[draw (6)], base = fn.substr (fn.rfind ('/') == std::string::npos ? 0 : fn.rfind ('/') + 1), dir = fn.rfind ('/') == std::string::npos ? "." : fn.substr (0, fn.rfind ('/'));
  fresh_scratch (); mkdir ("dir", 0777); if (fault == 2 && openwhat == 3) fn = "nowhere/out"; char num[20]; auto vtu = [&] (int r) { snprintf (num, sizeof num, "_%04d.vtu", r); return fn + num; };
  int victim = (int) draw (P); if (fault == 2) { if (openwhat == 0) mkdir (vtu (victim).c_str (), 0777); else if (openwhat == 1) mkdir ((fn + ".pvtu").c_str (), 0777); else if (openwhat == 2) mkdir ((fn + ".visit").c_str (), 0777); if (openwhat == 1 || openwhat == 2) victim = 0; }
  label ("p6est"); if (fault) label (fault == 1 ? "p6est left early" : fault == 2 ? "p6est cannot open" : "p6est disk full"); if (nl > b.leaves.size ()) nontrivial ();
  describe ("p6est conn %s, P %d, %zu columns, %zu layers, scale %g, top vertices %d, tree %d rank %d wrap %d, %d fields, name %s, fault %d/%d/%d; ", conn.name.c_str (), P, b.leaves.size (), nl, scale, topv, wt, wr, wrap, nf, fn.c_str (), fault, early, openwhat);
  std::vector<size_t> first { 0 }; for (auto & l : ls) first.push_back (first.back () + l.size ());
  auto field = [&] (int f, i64 cell, int k) { return value (Field { "", false, true, false, fs + (u64) f }, (u64) (cell * 8 + k), 0); };
  struct Shared { int code[64]; } *sh = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto write = [&] (int r, int stop) -> int {
    p4est_t *q = build (b); p4est_connectivity_t *cc = q->connectivity; p6est_t *p = p6est_new_from_p4est (q, topv ? tv.data () : nullptr, hgt, minz, 0, nullptr, nullptr); p4est_destroy (q); p4est_connectivity_destroy (cc); p6est_refine_layers (p, 1, cb_layer, nullptr);
    i64 lo = (i64) first[b.cuts[r]], N = (i64) first[b.cuts[r + 1]] - lo; CHECK ((i64) p->layers->elem_count == N, "process %d has %zu layers, expected %lld", r, p->layers->elem_count, (long long) N); int res = 0;
    std::vector<std::vector<double>> val (nf); for (int f = 0; f < nf; ++f) { for (i64 i = 0; i < 8 * N; ++i) val[f].push_back (field (f, lo + i / 8, (int) (i % 8))); val[f].push_back (0); }
    std::string list; for (int f = 0; f < nf; ++f) list += (f ? "," : "") + name[f];
    if (plain) p6est_vtk_write_file (p, fn.c_str ());
    else if (all_in_one) { 
#define P6(...) p6est_vtk_write_all (p, scale, wt, wr, wrap, nf, 0, fn.c_str () __VA_ARGS__)
#define PAIR6(i) , name[i].c_str (), val[i].data ()
      switch (nf) { case 0: P6 (); break; case 1: P6 (PAIR6 (0)); break; case 2: P6 (PAIR6 (0) PAIR6 (1)); break; case 3: P6 (PAIR6 (0) PAIR6 (1) PAIR6 (2)); break; default: P6 (PAIR6 (0) PAIR6 (1) PAIR6 (2) PAIR6 (3)); } }
    else {
      auto ret = [&] (int v, const char *w) { CHECK (v == 0 || v == -1, "process %d: %s returns %d", r, w, v); res = v ? 1 : 0; return v == 0; };
      if (ret (p6est_vtk_write_header (p, scale, wt, wr, wrap, nf ? list.c_str () : nullptr, nullptr, fn.c_str ()), "the header")) { bool ok = true; for (int f = 0; ok && f < nf && f < stop; ++f) ok = ret (p6est_vtk_write_point_scalar (p, fn.c_str (), name[f].c_str (), val[f].data ()), "a field"); if (ok) { if (stop <= nf) res = 2; else ret (p6est_vtk_write_footer (p, fn.c_str ()), "the footer"); } }
    }
    CHECK ((i64) p->layers->elem_count == N, "process %d: writing changes the forest", r);
    p6est_connectivity_t *c6 = p->connectivity; p6est_destroy (p); p6est_connectivity_destroy (c6); return res;
  };
  auto all = [&] (int stop) { MemMark mark = mem_mark (); sim::Report rep; int fds = open_files (); sim::run (b.cfg, [&] (int r) { sh->code[r] = write (r, stop); }, &rep); int after = open_files (); CHECK (after == fds, "%d files are left open", after - fds); CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ()); mem_check (mark, "after writing"); };
  if (fault == 3) {
    all (99); i64 big = 0; std::vector<std::string> f; for (int r = 0; r < P; ++r) f.push_back (vtu (r)); f.push_back (fn + ".pvtu"); f.push_back (fn + ".visit"); for (auto & e : f) { struct stat st; if (!stat (e.c_str (), &st)) big = std::max (big, (i64) st.st_size); unlink (e.c_str ()); }
    i64 limit = chance (25) ? std::max<i64> (1, big - (i64) draw (60)) : chance (20) ? (i64) big + (i64) draw (10) : 1 + (i64) draw (big); describe ("limit %lld of %lld; ", (long long) limit, (long long) big);
    Attempt at = attempt ([&] { signal (SIGXFSZ, SIG_IGN); struct rlimit l; getrlimit (RLIMIT_FSIZE, &l); rlim_t old = l.rlim_cur; l.rlim_cur = (rlim_t) limit; setrlimit (RLIMIT_FSIZE, &l); all (99); l.rlim_cur = old; setrlimit (RLIMIT_FSIZE, &l); });
    CHECK (at == Attempt::RETURNED, "writing layers with a full disk %s instead of reporting the failure", at == Attempt::ABORTED ? "aborts the program" : at == Attempt::CRASHED ? "crashes" : "does not end well");
    for (int r = 0; r < P; ++r) if (limit >= big) CHECK (sh->code[r] == 0, "process %d: writing fails without a reason", r);
  }
  else all (fault == 1 ? early : 99);
  if (fault == 2) for (int r = 0; r < P; ++r) CHECK (sh->code[r] == (openwhat == 3 || r == victim ? 1 : 0), "process %d: code %d although %s cannot be opened", r, sh->code[r], openwhat == 3 ? "nothing" : "the file of another process");
  int code[64]; memcpy (code, sh->code, sizeof code); munmap (sh, sizeof (Shared));
  if (fault == 1) { for (int r = 0; r < P; ++r) CHECK (code[r] == 2, "process %d: writing fails", r); return; }
  if (fault == 0) for (int r = 0; r < P; ++r) CHECK (code[r] == 0, "process %d: writing fails", r);
  typedef std::vector<std::pair<std::string, std::string>> Decl; Decl cells, points; bool have = false;
  auto decl = [] (const Xml *d) { Decl q; if (d) for (auto & e : d->c) { CHECK (e.tag == "DataArray" || e.tag == "PDataArray", "unexpected %s", e.tag.c_str ()); q.push_back ({ e.at ("Name"), e.at ("type") + " " + e.at ("NumberOfComponents") + " " + e.at ("format") }); } return q; };
  for (int r = 0; r < P; ++r) {
    if (code[r]) continue;
    std::string file = vtu (r); Reader rd; rd.file = file; const char *fc = file.c_str (); CHECK (slurp (file, rd.s), "%s does not exist", fc); Xml x = rd.document ();
    CHECK (x.tag == "VTKFile" && x.at ("type") == "UnstructuredGrid" && x.at ("byte_order") == "LittleEndian" && !x.at ("version").empty (), "%s: wrong head", fc); bool comp = x.a.count ("compressor");
    const Xml *ug = x.child ("UnstructuredGrid"); CHECK (ug && x.c.size () == 1 && ug->c.size () == 1 && ug->child ("Piece"), "%s: no single piece", fc); const Xml & pc = *ug->child ("Piece");
    i64 lo = (i64) first[b.cuts[r]], N = (i64) first[b.cuts[r + 1]] - lo; CHECK (atoll (pc.at ("NumberOfCells").c_str ()) == N && atoll (pc.at ("NumberOfPoints").c_str ()) == 8 * N, "%s: %s cells, %s points for %lld layers", fc, pc.at ("NumberOfCells").c_str (), pc.at ("NumberOfPoints").c_str (), (long long) N);
    const Xml *pp = pc.child ("Points"), *cl = pc.child ("Cells"), *cd = pc.child ("CellData"), *pd = pc.child ("PointData"); CHECK (pp && cl && pd && (cd != nullptr) == (wt || wr) && pp->c.size () == 1 && cl->c.size () == 3 && (int) pc.c.size () == 3 + (cd != nullptr), "%s: wrong parts", fc);
    auto array = [&] (const Xml & in, const std::string & n, i64 cnt, int m) { const Xml *f = nullptr; for (auto & q : in.c) if (q.at ("Name") == n) { CHECK (!f, "%s: two arrays %s", fc, n.c_str ()); f = &q; } CHECK (f, "%s: no array %s", fc, n.c_str ()); int mm = f->a.count ("NumberOfComponents") ? atoi (f->at ("NumberOfComponents").c_str ()) : 1; CHECK (mm == m, "%s: array %s has %d components", fc, n.c_str (), mm); auto v = numbers (*f, comp, file); CHECK ((i64) v.size () == cnt * m, "%s: array %s has %zu numbers, expected %lld", fc, n.c_str (), v.size (), (long long) cnt * m); checks ((u64) cnt); return v; };
    auto xyz = array (*pp, "Position", 8 * N, 3), cn = array (*cl, "connectivity", 8 * N, 1), of = array (*cl, "offsets", N, 1), ty = array (*cl, "types", N, 1); bool dbl = pp->c[0].at ("type") == "Float64";
    double maxabs = 1; for (double v : conn.vertices) maxabs = std::max (maxabs, std::fabs (v) + 5); double tol = maxabs * (dbl ? 1e-13 : 3e-7);
    std::vector<std::vector<double>> fv; for (auto & n : name) fv.push_back (array (*pd, n, 8 * N, 1));
    std::vector<char> used ((size_t) (8 * N)); std::vector<int> tree; size_t col = (size_t) b.cuts[r];
    for (i64 i = 0; i < N; ++i) {
      while (first[col + 1] <= (size_t) (lo + i)) ++col;
      const GL & g = b.leaves[col]; const Layer & l = ls[col][(size_t) (lo + i) - first[col]]; tree.push_back (g.tree); Pt c = deinterleave (g.l.key);
      CHECK (of[i] == 8 * (i + 1) && ty[i] == 11, "%s: cell %lld offset %g type %g", fc, (long long) i, of[i], ty[i]);
      for (int k = 0; k < 8; ++k) {
        double pt = cn[8 * i + k]; CHECK (pt >= 0 && pt < 8 * N && !used[(size_t) pt], "%s: cell %lld point %g", fc, (long long) i, pt); used[(size_t) pt] = 1;
        double e[3]; for (int a = 0; a < 3; ++a) e[a] = ((double) (a < 2 ? c.x[a] : l.z) + .5 * (double) qlen (a < 2 ? g.l.level : l.level) * (1 + ((k >> a) & 1 ? scale : -scale))) / (double) RL;
        for (int j = 0; j < 3; ++j) { double w = 0; for (int m = 0; m < 8; ++m) { double f = 1; for (int a = 0; a < 3; ++a) f *= (m >> a) & 1 ? e[a] : 1 - e[a]; int v = conn.ttv[g.tree * 4 + (m & 3)]; w += f * (m < 4 ? conn.vertices[3 * v + j] : topv ? tv[3 * v + j] : conn.vertices[3 * v + j] + hgt[j]); } double have = xyz[3 * (size_t) pt + j]; CHECK (std::fabs (have - w) <= tol, "%s: corner %d of layer z %llx level %d of %s has coordinate %d %.9g, expected %.9g", fc, k, (long long) l.z, l.level, str (g.tree, g.l).c_str (), j, have, w); }
        for (int f = 0; f < nf; ++f) { double z = field (f, lo + i, k), v = fv[f][(size_t) pt]; CHECK (v == (dbl ? z : (double) (float) z), "%s: field %s cell %lld corner %d is %.9g, expected %.9g", fc, name[f].c_str (), (long long) i, k, v, z); }
      }
    }
    if (wt) { auto v = array (*cd, "treeid", N, 1); for (i64 i = 0; i < N; ++i) CHECK (v[i] == tree[i], "%s: cell %lld tree %g, expected %d", fc, (long long) i, v[i], tree[i]); }
    if (wr) { auto v = array (*cd, "mpirank", N, 1); int w = wrap > 0 ? r % wrap : r; for (i64 i = 0; i < N; ++i) CHECK (v[i] == w, "%s: cell %lld process %g, expected %d", fc, (long long) i, v[i], w); }
    Decl dc = decl (cd), dp = decl (pd); CHECK ((int) dc.size () == wt + wr && (int) dp.size () == nf, "%s: %zu cell and %zu point arrays", fc, dc.size (), dp.size ());
    if (cd) { auto l = split (cd->at ("Scalars")); CHECK (l.size () == dc.size (), "%s: CellData lists %s", fc, cd->at ("Scalars").c_str ()); for (auto & e : l) CHECK (e == "treeid" || e == "mpirank", "%s: CellData lists %s", fc, e.c_str ()); }
    auto l = split (pd->at ("Scalars")); CHECK (l == name && !pd->a.count ("Vectors"), "%s: PointData lists %s", fc, pd->at ("Scalars").c_str ()); for (int f = 0; f < nf; ++f) CHECK (dp[f].first == name[f], "%s: field %d is %s", fc, f, dp[f].first.c_str ());
    if (!have) { cells = dc; points = dp; have = true; } else CHECK (cells == dc && points == dp, "%s: other arrays than in the file of another process", fc);
  }
  if (!code[0]) {
    std::string file = fn + ".pvtu"; const char *fc = file.c_str (); Reader rd; rd.file = file; CHECK (slurp (file, rd.s), "%s does not exist", fc); Xml x = rd.document (); CHECK (x.tag == "VTKFile" && x.at ("type") == "PUnstructuredGrid" && x.at ("byte_order") == "LittleEndian", "%s: wrong head", fc);
    const Xml *g = x.child ("PUnstructuredGrid"); CHECK (g && g->at ("GhostLevel") == "0" && g->child ("PPoints") && g->child ("PPoints")->c.size () == 1 && g->child ("PPoints")->c[0].at ("Name") == "Position" && g->child ("PPoints")->c[0].at ("NumberOfComponents") == "3", "%s: wrong points", fc);
    int pieces = 0; for (auto & q : g->c) if (q.tag == "Piece") { snprintf (num, sizeof num, "_%04d.vtu", pieces++); CHECK (q.at ("Source") == base + num, "%s: piece %s, expected %s%s", fc, q.at ("Source").c_str (), base.c_str (), num); } CHECK (pieces == P, "%s: %d pieces for %d processes", fc, pieces, P);
    Decl qc = decl (g->child ("PCellData")), qp = decl (g->child ("PPointData")); CHECK (qc == cells && qp == points, "%s: the arrays differ from those of the pieces", fc);
    std::string vis, want = "!NBLOCKS " + std::to_string (P) + "\n"; for (int r = 0; r < P; ++r) { snprintf (num, sizeof num, "_%04d.vtu\n", r); want += base + num; } CHECK (slurp (fn + ".visit", vis) && vis == want, "%s.visit has other content", fn.c_str ());
  }
  if (fault == 0) { std::set<std::string> want { base + ".pvtu", base + ".visit" }; for (int r = 0; r < P; ++r) { snprintf (num, sizeof num, "_%04d.vtu", r); want.insert (base + num); } if (dir == ".") want.insert ("dir"); auto got = listing (dir); for (auto & e : want) CHECK (got.count (e), "the file %s is not written", e.c_str ()); for (auto & e : got) CHECK (want.count (e), "a file %s appears", e.c_str ()); }
}
#endif

void prop () {
#if VDIM == 2
  if (chance (18)) { sheet (); return; }
#endif
  bool usegeo = chance (30);
  BuildOpts o; o.maxP = thorough () ? 13 : 7; o.maxleaves = chance (10) ? 2500 : 250; o.need_vertices = !usegeo; o.maxtrees = 24; o.maxdeep = chance (80) ? 6 : QML; o.balance_any = chance (50); 
  Built b; draw_built (b, o); int P = b.cfg.P; const Conn & conn = b.conn; gseed = draw (1000);
  enum { FILE_, STEPS, HO }; int how = weighted ({ 15, 65, 20 });
  static const double sc[] = { 1., .95, .5, .125, 1e-3, .999999 };
  double scale = how == FILE_ ? .95 : chance (45) ? 1. : chance (70) ? sc[draw (6)] : (double) range (1, 1000) / 1000.; bool setscale = how == STEPS && (scale != .95 || chance (50));
  bool conti = how == STEPS && chance (60), nodes = how == STEPS && conti && scale == 1.; int n1 = how == HO ? range (2, DIM == 2 ? 6 : 5) : 2; int npc = DIM == 2 ? n1 * n1 : n1 * n1 * n1;
  if (how == HO && b.leaves.size () * npc > 20000) discard ();
  bool wt = chance (60), wl = chance (60), wr = chance (60); int wrap = chance (40) ? range (1, P + 1) : 0; bool pointfirst = chance (30); int form = (int) draw (3);
  std::vector<Field> F; static const char *stem[] = { "u", "velocity", "p4est_x", "Temperature-2", "a.b", "x y", "%s", "field" };
  int nf = how == FILE_ ? 0 : range (0, 5); for (int i = 0; i < nf; ++i) { Field f; f.name = std::string (stem[draw (8)]) + "_" + std::to_string (i); f.vec = chance (40); f.point = chance (50); f.cont = chance (50); f.seed = draw64 (); F.push_back (f); }
  if (how == FILE_) { wt = wl = wr = true; wrap = 0; }
  int fault = weighted ({ 70, 8, 8, 14 }); /* none, leave early, cannot open, disk full */
  if (how == FILE_) fault = 0;
  static const char *names[] = { "out", "a.b", "./x", "dir/mesh", "p%d", "dir/../dir/z z", "v_0001" }; std::string fn = names[draw (7)], base = fn.substr (fn.rfind ('/') == std::string::npos ? 0 : fn.rfind ('/') + 1), dir = fn.rfind ('/') == std::string::npos ? "." : fn.substr (0, fn.rfind ('/'));
  int early = (int) draw (5); int openwhat = (int) draw (4); i64 limit = 0;
  fresh_scratch (); mkdir ("dir", 0777); if (fault == 2 && openwhat == 3) { fn = "nowhere/out"; }
  char num[20]; auto vtu = [&] (int r) { snprintf (num, sizeof num, "_%04d.vtu", r); return fn + num; };
  int victim = (int) draw (P); if (fault == 2) { if (openwhat == 0) mkdir (vtu (victim).c_str (), 0777); else if (openwhat == 1) mkdir ((fn + ".pvtu").c_str (), 0777); else if (openwhat == 2) mkdir ((fn + ".visit").c_str (), 0777); if (openwhat == 1 || openwhat == 2) victim = 0; }
  describe ("conn %s, P %d policy %d, %zu leaves, mode %d scale %g%s%s n1 %d, geometry %d, %d fields, tree %d level %d rank %d wrap %d, name %s, fault %d/%d/%d; ", conn.name.c_str (), P, b.cfg.policy, b.leaves.size (), how, scale, conti ? " continuous" : "", nodes ? " nodes" : "", n1, usegeo, nf, wt, wl, wr, wrap, fn.c_str (), fault, early, openwhat);
  label (how == FILE_ ? "p4est_vtk_write_file" : how == HO ? "higher order" : nodes ? "shared points" : "separate points"); if (fault) label (fault == 1 ? "left early" : fault == 2 ? "cannot open" : "disk full");
  if (b.leaves.size () > 1 && (how == FILE_ || !F.empty () || wt || wl || wr)) nontrivial ();

  struct Shared { int code[64]; } *sh = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto write = [&] (int r, int stop) -> int { /* 0 success, 1 failure reported, 2 left early */
    p4est_t *p = build (b); p4est_geometry_t geo; memset ((void *) &geo, 0, sizeof geo); geo.X = geo_x; p4est_geometry_t *g = usegeo ? &geo : nullptr;
    i64 lo = b.cuts[r], N = b.cuts[r + 1] - lo; int res = 1;
    if (how == FILE_) { std::string copy = fn; p4est_vtk_write_file (p, g, copy.c_str ()); compare (p, b, "after p4est_vtk_write_file"); destroy (p); return 0; }
    std::vector<sc_array_t *> arr; i64 npt = how == HO ? npc : NCH;
    for (auto & f : F) {
      i64 cnt = (f.point ? npt : 1) * N; int m = f.vec ? 3 : 1; sc_array_t *a = sc_array_new_count (sizeof (double), (size_t) (cnt * m));
      for (i64 i = 0; i < cnt; ++i) {
        u64 w = mix (1, (u64) i + (u64) lo * npt);
        if (f.point && f.cont && how != HO) { auto & L = b.leaves[lo + i / NCH]; Pt x = deinterleave (L.l.key); for (int d = 0; d < DIM; ++d) x.x[d] += ((i % NCH) >> d) & 1 ? qlen (L.l.level) : 0; auto c = conn.point_class (L.tree, x)[0]; w = mix ((u64) c.first, mix ((u64) c.second.x[0], (u64) c.second.x[1]), (u64) c.second.x[2]); }
        for (int j = 0; j < m; ++j) ((double *) a->array)[i * m + j] = value (f, w, j);
      }
      arr.push_back (a);
    }
    sc_array_t *pos = how == HO ? sc_array_new_count (sizeof (double), (size_t) (DIM * N * npc)) : nullptr; for (i64 i = 0; pos && i < DIM * N * npc; ++i) ((double *) pos->array)[i] = value (Field { "", false, true, false, 77 }, (u64) (lo * DIM * npc + i), 0);
    std::string *copy = new std::string (fn); p4est_vtk_context_t *k = p4est_vtk_context_new (p, copy->c_str ()), *k0 = k; std::fill (copy->begin (), copy->end (), '#'); delete copy;
    auto same = [&] { CHECK (!k || k == k0, "process %d: another context is returned", r); return k != nullptr; };
    do {
      if (stop == 0) { p4est_vtk_context_destroy (k); res = 2; break; }
      if (g) p4est_vtk_context_set_geom (k, g);
      if (setscale) p4est_vtk_context_set_scale (k, scale);
      if (conti || form == 1) p4est_vtk_context_set_continuous (k, conti);
      k = how == HO ? p4est_vtk_write_header_ho (k, pos, n1) : p4est_vtk_write_header (k); if (!same ()) break;
      if (stop == 1) { p4est_vtk_context_destroy (k); res = 2; break; }
      bool stopped = false;
      for (int round = 0; round < 2; ++round) {
        bool point = (round == 1) != pointfirst; std::vector<const char *> nm; std::vector<sc_array_t *> va; int ns = 0, nv = 0;
        for (int v = 0; v < 2; ++v) for (size_t i = 0; i < F.size (); ++i) if (F[i].point == point && F[i].vec == (v == 1)) { nm.push_back (F[i].name.c_str ()); va.push_back (arr[i]); (v ? nv : ns)++; }
        size_t n = nm.size ();
#define PAIR(i) nm[i], va[i]
#define CALLS(fun, ...) switch (n) { case 0: k = fun (__VA_ARGS__, k); break; case 1: k = fun (__VA_ARGS__, PAIR (0), k); break; case 2: k = fun (__VA_ARGS__, PAIR (0), PAIR (1), k); break; case 3: k = fun (__VA_ARGS__, PAIR (0), PAIR (1), PAIR (2), k); break; case 4: k = fun (__VA_ARGS__, PAIR (0), PAIR (1), PAIR (2), PAIR (3), k); break; default: k = fun (__VA_ARGS__, PAIR (0), PAIR (1), PAIR (2), PAIR (3), PAIR (4), k); }
        if (point) { CALLS (p4est_vtk_write_point_dataf, k, ns, nv) }
        else if (form == 0) k = p4est_vtk_write_cell_data (k, wt, wl, wr, wrap, ns, nv, nm.data (), va.data ());
        else if (form == 1) { CALLS (p4est_vtk_write_cell_dataf, k, wt, wl, wr, wrap, ns, nv) }
        else { CALLS (cellv, k, wt, wl, wr, wrap, ns, nv) }
        if (!same ()) break;
        if (stop == 2 + round) { p4est_vtk_context_destroy (k); res = 2; stopped = true; break; }
      }
      if (!k || stopped) break;
      int rv = p4est_vtk_write_footer (k); CHECK (rv == 0 || rv == -1, "process %d: the footer returns %d", r, rv); res = rv ? 1 : 0;
    } while (0);
    for (auto a : arr) sc_array_destroy (a);
    if (pos) sc_array_destroy (pos);
    compare (p, b, "after writing"); destroy (p); return res;
  };
  auto all = [&] (int stop) { MemMark mark = mem_mark (); sim::Report rep; int fds = open_files (); sim::run (b.cfg, [&] (int r) { sh->code[r] = write (r, stop); }, &rep); int after = open_files (); CHECK (after == fds, "%d files are left open", after - fds); CHECK (rep.messages == 0 && rep.requests == 0 && rep.comms == 0, "left behind: %s", rep.text ().c_str ()); mem_check (mark, "after writing"); };
  bool wrote = true;
  if (fault == 3) { /* every file may only grow to a limit; learn the sizes first */
    all (99); i64 big = 0; std::vector<std::string> fs; for (int r = 0; r < P; ++r) fs.push_back (vtu (r)); fs.push_back (fn + ".pvtu"); fs.push_back (fn + ".visit");
    for (auto & f : fs) { struct stat st; if (!stat (f.c_str (), &st)) big = std::max (big, (i64) st.st_size); unlink (f.c_str ()); }
    limit = chance (25) ? std::max<i64> (1, big - (i64) draw (60)) : chance (20) ? (i64) big + (i64) draw (10) : 1 + (i64) draw (big); describe ("limit %lld of %lld; ", (long long) limit, (long long) big);
    Attempt at = attempt ([&] { signal (SIGXFSZ, SIG_IGN); struct rlimit l; getrlimit (RLIMIT_FSIZE, &l); rlim_t old = l.rlim_cur; l.rlim_cur = (rlim_t) limit; setrlimit (RLIMIT_FSIZE, &l); all (99); l.rlim_cur = old; setrlimit (RLIMIT_FSIZE, &l); });
    CHECK (at == Attempt::RETURNED, "writing with a full disk %s instead of reporting the failure", at == Attempt::ABORTED ? "aborts the program" : at == Attempt::CRASHED ? "crashes" : "does not end well");
    for (int r = 0; r < P; ++r) if (limit >= big) CHECK (sh->code[r] == 0, "process %d: writing fails without a reason", r);
  }
  else { all (fault == 1 ? early : 99); if (fault == 1 && early < 4) for (int r = 0; r < P; ++r) CHECK (sh->code[r] == 2, "process %d: writing fails", r); }
  if (fault == 1 && early < 4) wrote = false;
  if (fault == 2) { for (int r = 0; r < P; ++r) CHECK (sh->code[r] == (openwhat == 3 || r == victim ? 1 : 0), "process %d: code %d although %s cannot be opened", r, sh->code[r], openwhat == 3 ? "nothing" : "the file of another process"); }
  int code[64]; memcpy (code, sh->code, sizeof code); munmap (sh, sizeof (Shared));
  if (!wrote) return;
  if (fault == 0) for (int r = 0; r < P; ++r) CHECK (code[r] == 0, "process %d: writing fails", r);

  /* ---------------------------------------------------------- read back */
  typedef std::map<std::string, std::pair<std::string, int>> Decl; Decl cells, points; bool havedecl = false; std::string listed;
  i64 nleaf = 0; bool balanced = nodes && is_balanced (b.forest, DIM);
  for (int r = 0; r < P; ++r) {
    if (code[r]) continue;
    std::string file = vtu (r); Reader rd; rd.file = file; CHECK (slurp (file, rd.s), "%s does not exist", file.c_str ()); Xml x = rd.document (); const char *fc = file.c_str ();
    CHECK (x.tag == "VTKFile" && x.at ("type") == "UnstructuredGrid" && x.at ("byte_order") == "LittleEndian" && !x.at ("version").empty (), "%s: wrong head", fc);
    bool comp = x.a.count ("compressor"); CHECK (!comp || x.at ("compressor") == "vtkZLibDataCompressor", "%s: compressor %s", fc, x.at ("compressor").c_str ());
    const Xml *ug = x.child ("UnstructuredGrid"); CHECK (ug && x.c.size () == 1 && ug->c.size () == 1 && ug->child ("Piece"), "%s: no single piece", fc); const Xml & pc = *ug->child ("Piece");
    i64 lo = b.cuts[r], N = b.cuts[r + 1] - lo, npt = how == HO ? npc : NCH, NP = atoll (pc.at ("NumberOfPoints").c_str ()); nleaf += N;
    CHECK (atoll (pc.at ("NumberOfCells").c_str ()) == N, "%s: %s cells for %lld leaves", fc, pc.at ("NumberOfCells").c_str (), (long long) N);
    const Xml *pp = pc.child ("Points"), *cl = pc.child ("Cells"), *cd = pc.child ("CellData"), *pd = pc.child ("PointData"); CHECK (pp && cl && pp->c.size () == 1 && cl->c.size () == 3 && (int) pc.c.size () == 2 + (cd != nullptr) + (pd != nullptr), "%s: wrong parts", fc);
    auto array = [&] (const Xml & in, const std::string & n, i64 cnt, int m) { const Xml *f = nullptr; for (auto & q : in.c) { CHECK (q.tag == "DataArray", "%s: %s in %s", fc, q.tag.c_str (), in.tag.c_str ()); if (q.at ("Name") == n) { CHECK (!f, "%s: two arrays %s", fc, n.c_str ()); f = &q; } } CHECK (f, "%s: no array %s", fc, n.c_str ()); int mm = f->a.count ("NumberOfComponents") ? atoi (f->at ("NumberOfComponents").c_str ()) : 1; CHECK (mm == m, "%s: array %s has %d components", fc, n.c_str (), mm); auto v = numbers (*f, comp, file); CHECK ((i64) v.size () == cnt * m, "%s: array %s has %zu numbers, expected %lld", fc, n.c_str (), v.size (), (long long) cnt * m); checks ((u64) cnt); return v; };
    auto xyz = array (*pp, "Position", NP, 3), cn = array (*cl, "connectivity", N * npt, 1), of = array (*cl, "offsets", N, 1), ty = array (*cl, "types", N, 1);
    bool dbl = pp->c[0].at ("type") == "Float64"; double maxabs = 1; for (double v : conn.vertices) maxabs = std::max (maxabs, std::fabs (v)); if (usegeo) maxabs = 2 * conn.nt + 10; double tol = maxabs * (dbl ? 1e-13 : 3e-7);
    for (i64 i = 0; i < N; ++i) { CHECK (of[i] == npt * (i + 1), "%s: offset of cell %lld is %g", fc, (long long) i, of[i]); CHECK (ty[i] == (how == HO ? (DIM == 2 ? 70 : 72) : DIM == 2 ? 8 : 11), "%s: cell type %g", fc, ty[i]); }
    for (double v : cn) CHECK (v >= 0 && v < NP, "%s: point %g of %lld", fc, v, (long long) NP);
    /* point of (cell, corner), cell corner of a point */
    std::vector<int> pt ((size_t) (N * npt)); std::vector<std::vector<i64>> users ((size_t) NP);
    for (i64 i = 0; i < N; ++i) for (int k = 0; k < npt; ++k) { int at = k; if (how == HO) { int ix[3] = { k % n1, k / n1 % n1, k / n1 / n1 }; at = lagrange (ix, n1); } pt[i * npt + k] = (int) cn[i * npt + at]; users[pt[i * npt + k]].push_back (i * npt + k); }
    for (i64 q = 0; q < NP; ++q) CHECK (!users[q].empty () && (nodes || users[q].size () == 1), "%s: point %lld is used %zu times", fc, (long long) q, users[q].size ());
    if (how == HO) { for (i64 i = 0; i < N * npt; ++i) for (int j = 0; j < 3; ++j) { double w = j < DIM ? value (Field { "", false, true, false, 77 }, (u64) (lo * DIM * npc + i * DIM + j), 0) : 0., g = xyz[3 * pt[i] + j]; CHECK (g == (dbl ? w : (double) (float) w), "%s: cell %lld point %lld component %d is %.9g, expected %.9g", fc, (long long) (i / npt), (long long) (i % npt), j, g, w); } }
    else {
      std::map<std::pair<int, Pt>, int> cls; std::map<int, std::pair<int, Pt>> place;
      for (i64 i = 0; i < N * NCH; ++i) {
        auto & L = b.leaves[lo + i / NCH]; Pt x = deinterleave (L.l.key); i64 h = qlen (L.l.level); int k = (int) (i % NCH);
        auto near = [&] (const V3 & w) { for (int j = 0; j < 3; ++j) if (!(std::fabs (xyz[3 * pt[i] + j] - w[j]) <= tol)) return false; return true; };
        auto show = [&] (const V3 & w) { char s[300]; snprintf (s, sizeof s, "%s: corner %d of %s is at (%.9g %.9g %.9g), expected (%.9g %.9g %.9g)", fc, k, str (L.tree, L.l).c_str (), xyz[3 * pt[i]], xyz[3 * pt[i] + 1], xyz[3 * pt[i] + 2], w[0], w[1], w[2]); return std::string (s); };
        V3 a { { 0, 0, 0 } }; for (int d = 0; d < DIM; ++d) a[d] = ((double) x.x[d] + .5 * (double) h * (1 + ((k >> d) & 1 ? scale : -scale))) / (double) RL;
        V3 w = position (conn, usegeo, L.tree, a); CHECK (near (w), "%s", show (w).c_str ());
        if (nodes) { /* corners of one tree at one place share a point, in any case nothing else does */
          for (int d = 0; d < DIM; ++d) x.x[d] += (k >> d) & 1 ? h : 0;
          auto it = cls.emplace (std::make_pair (L.tree, x), pt[i]); CHECK (!balanced || it.first->second == pt[i], "%s: two points for corner %d of %s", fc, k, str (L.tree, L.l).c_str ());
          auto iq = place.emplace (pt[i], std::make_pair (L.tree, x)); CHECK (iq.first->second == std::make_pair (L.tree, x), "%s: corner %d of %s uses the point of another corner", fc, k, str (L.tree, L.l).c_str ());
        }
      }
      if (nodes && balanced) CHECK ((i64) cls.size () == NP, "%s: %lld points, %zu different corners", fc, (long long) NP, cls.size ());
    }
    Decl dc, dp;
    if (cd) for (auto & q : cd->c) dc[q.at ("Name")] = { q.at ("type"), q.a.count ("NumberOfComponents") ? atoi (q.at ("NumberOfComponents").c_str ()) : 1 };
    if (pd) for (auto & q : pd->c) dp[q.at ("Name")] = { q.at ("type"), q.a.count ("NumberOfComponents") ? atoi (q.at ("NumberOfComponents").c_str ()) : 1 };
    size_t nc = (size_t) (wt + wl + wr), np = 0; for (auto & f : F) (f.point ? np : nc)++;
    CHECK ((cd ? cd->c.size () : 0) == nc && dc.size () == nc, "%s: %zu cell arrays, expected %zu", fc, cd ? cd->c.size () : 0, nc); CHECK ((pd ? pd->c.size () : 0) == np && dp.size () == np, "%s: %zu point arrays, expected %zu", fc, pd ? pd->c.size () : 0, np);
    if (wt) { auto v = array (*cd, "treeid", N, 1); for (i64 i = 0; i < N; ++i) CHECK (v[i] == b.leaves[lo + i].tree, "%s: cell %lld tree %g, expected %d", fc, (long long) i, v[i], b.leaves[lo + i].tree); }
    if (wl) { auto v = array (*cd, "level", N, 1); for (i64 i = 0; i < N; ++i) CHECK (v[i] == b.leaves[lo + i].l.level, "%s: cell %lld level %g, expected %d", fc, (long long) i, v[i], b.leaves[lo + i].l.level); }
    if (wr) { auto v = array (*cd, "mpirank", N, 1); int w = wrap > 0 ? r % wrap : r; for (i64 i = 0; i < N; ++i) CHECK (v[i] == w, "%s: cell %lld process %g, expected %d", fc, (long long) i, v[i], w); }
    for (auto & f : F) {
      int m = f.vec ? 3 : 1; auto v = array (f.point ? *pd : *cd, f.name, f.point ? NP : N, m);
      auto given = [&] (i64 i, int j) { u64 w = mix (1, (u64) i + (u64) lo * npt); if (f.point && f.cont && how != HO) { auto & L = b.leaves[lo + i / NCH]; Pt x = deinterleave (L.l.key); for (int d = 0; d < DIM; ++d) x.x[d] += ((i % NCH) >> d) & 1 ? qlen (L.l.level) : 0; auto c = conn.point_class (L.tree, x)[0]; w = mix ((u64) c.first, mix ((u64) c.second.x[0], (u64) c.second.x[1]), (u64) c.second.x[2]); } double z = value (f, w, j); return dbl ? z : (double) (float) z; };
      if (!f.point) { for (i64 i = 0; i < N; ++i) for (int j = 0; j < m; ++j) CHECK (v[i * m + j] == given (i, j), "%s: cell %lld field %s component %d is %.9g, expected %.9g", fc, (long long) i, f.name.c_str (), j, v[i * m + j], given (i, j)); }
      else for (i64 q = 0; q < NP; ++q) { bool ok = false; for (i64 u : users[q]) { bool e = true; for (int j = 0; j < m; ++j) e = e && v[q * m + j] == given (u, j); ok = ok || e; } CHECK (ok, "%s: point %lld field %s is %.9g, not what its corner was given (%.9g)", fc, (long long) q, f.name.c_str (), v[q * m], given (users[q][0], 0)); }
    }
    if (cd) { auto l = split (cd->at ("Scalars")); std::set<std::string> s (l.begin (), l.end ()); CHECK (s.size () == l.size () && s.size () == dc.size (), "%s: CellData lists %s", fc, cd->at ("Scalars").c_str ()); for (auto & e : s) CHECK (dc.count (e), "%s: CellData lists %s", fc, e.c_str ()); }
    if (pd) for (int v = 0; v < 2; ++v) { auto l = split (pd->at (v ? "Vectors" : "Scalars")); size_t want = 0; for (auto & f : F) want += f.point && f.vec == (v == 1); CHECK (l.size () == want, "%s: PointData lists %zu fields, expected %zu", fc, l.size (), want); for (auto & e : l) CHECK (dp.count (e) && dp[e].second == (v ? 3 : 1), "%s: PointData lists %s", fc, e.c_str ()); }
    if (!havedecl) { cells = dc; points = dp; havedecl = true; if (cd) listed = cd->at ("Scalars"); } else CHECK (cells == dc && points == dp, "%s: other arrays than in the file of another process", fc);
  }
  if (!code[0]) {
    std::string file = fn + ".pvtu"; const char *fc = file.c_str (); Reader rd; rd.file = file; CHECK (slurp (file, rd.s), "%s does not exist", fc); Xml x = rd.document (); CHECK (x.tag == "VTKFile" && x.at ("type") == "PUnstructuredGrid" && x.at ("byte_order") == "LittleEndian", "%s: wrong head", fc);
    const Xml *g = x.child ("PUnstructuredGrid"); CHECK (g && g->at ("GhostLevel") == "0" && g->child ("PPoints") && g->child ("PPoints")->c.size () == 1 && g->child ("PPoints")->c[0].at ("Name") == "Position" && g->child ("PPoints")->c[0].at ("NumberOfComponents") == "3", "%s: wrong points", fc);
    int pieces = 0; for (auto & q : g->c) if (q.tag == "Piece") { snprintf (num, sizeof num, "_%04d.vtu", pieces++); CHECK (q.at ("Source") == base + num || (fault == 2 && openwhat == 3), "%s: piece %s", fc, q.at ("Source").c_str ()); } CHECK (pieces == P, "%s: %d pieces for %d processes", fc, pieces, P);
    for (int v = 0; v < 2; ++v) {
      const Xml *d = g->child (v ? "PPointData" : "PCellData"); Decl q; size_t n = 0; if (d) for (auto & e : d->c) { ++n; CHECK (e.tag == "PDataArray", "%s: %s", fc, e.tag.c_str ()); q[e.at ("Name")] = { e.at ("type"), e.a.count ("NumberOfComponents") ? atoi (e.at ("NumberOfComponents").c_str ()) : 1 }; }
      CHECK (q == (v ? points : cells) && n == q.size (), "%s: the %s arrays differ from those of the pieces", fc, v ? "point" : "cell");
      if (!v && d) CHECK (d->at ("Scalars") == listed, "%s: lists %s", fc, d->at ("Scalars").c_str ());
    }
    std::string vis, want = "!NBLOCKS " + std::to_string (P) + "\n"; for (int r = 0; r < P; ++r) { snprintf (num, sizeof num, "_%04d.vtu\n", r); want += base + num; } CHECK (slurp (fn + ".visit", vis) && vis == want, "%s.visit has other content", fn.c_str ());
  }
  if (fault == 0) { std::set<std::string> want { base + ".pvtu", base + ".visit" }; for (int r = 0; r < P; ++r) { snprintf (num, sizeof num, "_%04d.vtu", r); want.insert (base + num); } if (dir == ".") want.insert ("dir"); auto got = listing (dir); for (auto & e : want) CHECK (got.count (e), "the file %s is not written", e.c_str ()); for (auto & e : got) CHECK (want.count (e), "a file %s appears", e.c_str ()); CHECK (nleaf == (i64) b.leaves.size (), "%lld cells in all", (long long) nleaf); }
}
}
