/* Coarse meshes through memory, files, broadcast, shared memory and ABAQUS text */
#include "conn_common.h"
#include "conn_format.h"
#include <sys/stat.h>
#include <unistd.h>
#if VDIM == 3
#include <p8est_io.h>
#else
#include <p4est_io.h>
#endif
namespace DNS {
using namespace eng;
typedef p4est_connectivity_t C;
static Conn grab (const C * c, const char *name) { Conn k; k.from (c); k.name = name; return k; }
struct Subject { Conn k; size_t ab = 0; std::vector<char> attr; };
static Subject draw_subject (int maxtrees) {
  Subject s; s.k = draw_conn (maxtrees);
  if (chance (45)) { s.ab = chance (80) ? (size_t) range (1, 24) : (size_t) range (200, 600); s.attr.resize (s.ab * s.k.nt); u64 seed = draw (1000); for (size_t i = 0; i < s.attr.size (); ++i) s.attr[i] = (char) mix (seed, i); }
  if (s.k.nv && chance (30)) for (auto & v : s.k.vertices) v = (double) (i64) draw64 () / 7.;
  describe ("%s with %d trees, %zu attribute bytes; ", s.k.name.c_str (), s.k.nt, s.ab);
  if (s.ab) label ("attributes");
  if (!s.k.nv) label ("no vertices");
  return s;
}
static C *make (const Subject & s) {
  C *c = s.k.make ();
  if (s.ab) { p4est_connectivity_set_attr (c, s.ab); memcpy (c->tree_to_attr, s.attr.data (), s.attr.size ()); }
  return c;
}
static void same (const Subject & s, const C * c, const char *ctx, bool attr = true) {
  CHECK (c != nullptr, "%s: no result", ctx);
  CHECK (s.k.same_as (c), "%s: the coarse mesh differs", ctx);
  if (attr) {
    CHECK (c->tree_attr_bytes == s.ab && (c->tree_to_attr == nullptr) == (s.ab == 0), "%s: %zu attribute bytes, expected %zu", ctx, c->tree_attr_bytes, s.ab);
    CHECK (!s.ab || !memcmp (c->tree_to_attr, s.attr.data (), s.attr.size ()), "%s: attributes differ", ctx);
  } else CHECK (c->tree_attr_bytes == 0 && c->tree_to_attr == nullptr, "%s: attributes are present", ctx);
  CHECK (p4est_connectivity_is_valid ((C *) c), "%s: not valid", ctx);
  checks (s.k.nt * (NF + NCH));
}
static C *inflate (const std::string & s) { sc_array_t *a = sc_array_new_count (1, s.size ()); memcpy (a->array, s.data (), s.size ()); C *c = p4est_connectivity_inflate (a); CHECK (bytes_of (a) == s, "inflate changed its buffer"); sc_array_destroy (a); return c; }

void mode_roundtrip () {
  Subject s = draw_subject (60);
  nontrivial (); label ("round trip");
  C *c = make (s);
  sc_array_t *a = p4est_connectivity_deflate (c, P4EST_CONN_ENCODE_NONE);
  CHECK (a->elem_size == 1, "deflate: element size");
  std::string d = bytes_of (a), g = golden (s.k, s.attr, s.ab);
  CHECK (d.size () == g.size (), "deflate writes %zu bytes, the format has %zu", d.size (), g.size ());
  CHECK (d.compare (0, 8, g, 0, 8) == 0 && d.compare (32, std::string::npos, g, 32, std::string::npos) == 0, "deflate does not write format %s", DIM == 3 ? "0x3000009" : "0x2000009");
  C *e = p4est_connectivity_inflate (a); same (s, e, "inflate"); CHECK (p4est_connectivity_is_equal (c, e), "inflate: not equal");
  p4est_connectivity_destroy (e); sc_array_destroy (a);
  e = inflate (g); same (s, e, "inflate of the written format"); p4est_connectivity_destroy (e);
  /* files */
  CHECK (p4est_connectivity_save ("c.p4c", c) == 0, "save fails");
  CHECK (file_bytes ("c.p4c") == d, "save and deflate write different bytes");
  size_t bytes = 77; bool want = chance (70);
  e = p4est_connectivity_load ("c.p4c", want ? &bytes : nullptr);
  same (s, e, "load"); CHECK (!want || bytes == d.size (), "load reports %zu bytes of %zu", bytes, d.size ());
  p4est_connectivity_destroy (e);
  unlink ("c.p4c");
  /* several in one stream */
  int n = range (1, 3);
  sc_array_t *buf = sc_array_new (1);
  sc_io_sink_t *sink = sc_io_sink_new (SC_IO_TYPE_BUFFER, SC_IO_MODE_WRITE, SC_IO_ENCODE_NONE, buf);
  for (int i = 0; i < n; ++i) CHECK (p4est_connectivity_sink (c, sink) == 0, "sink fails");
  CHECK (sc_io_sink_destroy (sink) == 0 && buf->elem_count == n * d.size (), "sink writes %zu bytes for %d meshes", buf->elem_count, n);
  /* libsc reads a buffer up to its allocation, not its length: read an exact view */
  sc_array_t view; sc_array_init_data (&view, buf->array, 1, buf->elem_count);
  sc_io_source_t *src = sc_io_source_new (SC_IO_TYPE_BUFFER, SC_IO_ENCODE_NONE, &view);
  for (int i = 0; i < n; ++i) { e = p4est_connectivity_source (src); same (s, e, "source"); p4est_connectivity_destroy (e); }
  e = p4est_connectivity_source (src); CHECK (e == nullptr, "source reads beyond the end");
  CHECK (sc_io_source_destroy (src) == 0, "source destroy"); sc_array_destroy (buf);
  /* copies */
  e = p4est_connectivity_copy (c, 1); same (s, e, "copy with attributes"); CHECK (p4est_connectivity_is_equal (c, e), "copy: not equal");
  if (s.ab) { e->tree_to_attr[draw (s.attr.size ())] ^= 1; CHECK (!p4est_connectivity_is_equal (c, e), "is_equal does not compare attributes"); p4est_connectivity_set_attr (e, 0); CHECK (!p4est_connectivity_is_equal (c, e), "is_equal does not see missing attributes"); }
  p4est_connectivity_destroy (e);
  e = p4est_connectivity_copy (c, 0); same (s, e, "copy without attributes", false);
  CHECK (!!p4est_connectivity_is_equal (c, e) == (s.ab == 0), "copy without attributes");
  /* changes of a copy do not reach the original */
  for (int i = 0; i < NF * s.k.nt; ++i) e->tree_to_tree[i] = 0;
  p4est_connectivity_destroy (e);
  same (s, c, "original");
  p4est_connectivity_destroy (c);
}
void mode_corrupt () {
  Subject s = draw_subject (12);
  int kind = weighted ({ 35, 30, 15, 20 });
  nontrivial ();
  if (kind == 0) {              /* a table entry is changed */
    label ("changed table entry");
    Conn m = s.k; std::string what;
    if (!mutate (m, what)) discard ();
    describe ("%s; ", what.c_str ());
    bool und = false; std::string why; bool ok = tables_valid (m, &und, &why);
    /* also the end of the offsets is part of the header */
    C *c = inflate (golden (m, s.attr, s.ab));
    if (!ok) CHECK (c == nullptr, "inflate accepts %s: %s", what.c_str (), why.c_str ());
    else if (!und) { CHECK (c != nullptr, "inflate rejects valid %s", what.c_str ()); Subject t = s; t.k = m; same (t, c, "inflate of changed mesh"); }
    if (c) p4est_connectivity_destroy (c);
    checks ();
    return;
  }
  std::string g = golden (s.k, s.attr, s.ab);
  if (kind == 1) {              /* truncated */
    label ("truncated");
    size_t n = chance (30) ? draw (112) : draw (g.size ());
    describe ("%zu of %zu bytes; ", n, g.size ());
    C *c = inflate (g.substr (0, n));
    CHECK (c == nullptr, "inflate accepts %zu of %zu bytes", n, g.size ());
    write_file ("t.p4c", g.substr (0, n));
    c = p4est_connectivity_load ("t.p4c", nullptr);
    CHECK (c == nullptr, "load accepts %zu of %zu bytes", n, g.size ());
    unlink ("t.p4c");
    checks (2);
    return;
  }
  if (kind == 2) {              /* some byte of the data */
    label ("changed byte");
    size_t i = 112 + draw (g.size () - 112); int old = g[i]; g[i] = (char) (chance (50) ? old ^ (1 << draw (8)) : (int) draw (256));
    describe ("byte %zu from %d to %d; ", i, old, g[i]);
    C *c = inflate (g);
    if (c) { CHECK (p4est_connectivity_is_valid (c), "inflate returns an invalid mesh"); p4est_connectivity_destroy (c); }
    checks ();
    return;
  }
  label ("changed header");     /* magic, format, sizes */
  int f = weighted ({ 2, 2, 2, 17, 4 });
  u64 *h = (u64 *) &g[32];
  int idx = -1; u64 old = 0;
  if (f == 0) { size_t i = draw (6); g[i] ^= (char) (1 << draw (8)); }
  else if (f == 1) { idx = 0; old = h[0]; h[0] = chance (50) ? old - 1 : DIM == 3 ? 0x2000009 : 0x3000009; }
  else if (f == 2) { idx = 1; old = h[1]; h[1] = 8; }
  else if (f == 4) {            /* members of classes although there are none */
    bool edge = DIM == 3 && s.k.nc == 0 && chance (50);
    if (s.k.nc || s.k.ne) discard ();
    int n = range (1, 5); size_t at = g.size () - (edge ? 8 : 4);
    idx = edge ? 5 : 7; old = h[idx]; h[idx] = n; memcpy (&g[at], &n, 4);
  }
  else {
    idx = 2 + (int) draw (6); old = h[idx];
    int r = weighted ({ 3, 3, 2, 1, 1 });
    h[idx] = r == 0 ? old + 1 : r == 1 ? old - 1 : r == 2 ? old + (u64) range (2, 200) : r == 3 ? 0 : (u64) -1 - draw (3);
    if (h[idx] == old) discard ();
  }
  describe ("header word %d from %lld to %lld; ", idx, (long long) old, idx < 0 ? 0ll : (long long) h[idx]);
  C *c = inflate (g);
  if (f < 3) CHECK (c == nullptr, "inflate accepts a changed magic or format");
  if (idx >= 2 && (int) h[idx] < 0) CHECK (c == nullptr, "inflate accepts a negative size");
  if (c) { CHECK (p4est_connectivity_is_valid (c), "inflate returns an invalid mesh"); p4est_connectivity_destroy (c); }
  checks ();
}
void mode_collective () {
  Subject s = draw_subject (30);
  sim::Config cfg = draw_sim (9);
  int kind = (int) draw (3), root = kind == 2 ? 0 : (int) draw (cfg.P), chk = (int) draw (cfg.P);
  int sub = kind == 0 && chance (40) ? 1 + (int) draw (3) : 0;    /* broadcast within the groups of a split communicator */
  if (kind == 1) cfg.nodesize = 1 << 30;
  static const char *nm[] = { "bcast", "share", "mission" };
  describe ("%s from %d of %d%s; ", nm[kind], root, cfg.P, sub ? " in groups" : "");
  label ("%s", nm[kind]);
  if (cfg.P > 1) nontrivial ();
  sim::Report rep;
  sim::run (cfg, [&] (int r) {
    if (kind == 0) {
      sc_MPI_Comm comm = sc_MPI_COMM_WORLD; int me = r, ro = root;
      if (sub) { sc_MPI_Comm_split (sc_MPI_COMM_WORLD, r % (sub + 1), r, &comm); int size; sc_MPI_Comm_rank (comm, &me); sc_MPI_Comm_size (comm, &size); ro = root % size; }
      C *in = me == ro ? make (s) : nullptr;
      C *c = p4est_connectivity_bcast (in, ro, comm);
      CHECK (me != ro || c == in, "bcast: the root gets another object");
      same (s, c, "bcast");
      if (sub) sc_MPI_Comm_free (&comm);
      p4est_connectivity_destroy (c);
      return;
    }
    C *in = r == root ? make (s) : nullptr;
    p4est_connectivity_shared_t *sh = kind == 1 ? p4est_connectivity_share (in, root, sc_MPI_COMM_WORLD) : p4est_connectivity_mission (in, sc_MPI_COMM_TYPE_SHARED, sc_MPI_COMM_WORLD);
    CHECK (sh != nullptr, "%s: no result", nm[kind]);
    same (s, sh->conn, nm[kind]);
    if (r == chk) {              /* usable as any other coarse mesh */
      C *c = p4est_connectivity_copy (sh->conn, 1); same (s, c, "copy of shared"); CHECK (p4est_connectivity_is_equal (c, sh->conn), "copy of shared: not equal"); p4est_connectivity_destroy (c);
    }
    p4est_connectivity_shared_destroy (sh);
  }, &rep);
  CHECK (!rep.messages && !rep.requests && !rep.comms && !rep.windows, "left behind: %s", rep.text ().c_str ());
}
/* ABAQUS */
static const char *cased (const char *w, int mode, std::string & buf) {
  buf = w; for (size_t i = 0; i < buf.size (); ++i) buf[i] = mode == 0 ? buf[i] : mode == 1 ? (char) toupper (buf[i]) : (char) tolower (buf[i]);
  return buf.c_str ();
}
void mode_inp () {
  VMesh m = draw_vmesh ();
  int bad = weighted ({ 60, 40 });
  std::string b, nl = chance (20) ? "\r\n" : "\n", out; char tmp[400];
  int cs = (int) draw (3); bool fancy = chance (50), tail = chance (80);
  auto junk = [&] () {
    int n = weighted ({ 5, 3, 2 });
    for (int i = 0; i < n; ++i) switch (draw (5)) {
      case 0: out += std::string ("*Heading") + nl + " some text" + nl; break;
      case 1: out += std::string ("** a comment") + nl; break;
      case 2: out += std::string ("*Part, name=") + std::string (1000 + draw (1200), 'x') + nl; break;
      case 3: out += std::string ("*Nset, nset=all") + nl + "1, 2, 3" + nl; break;
      default: out += std::string (DIM == 3 ? "*Element, type=S4R" : "*Element, type=T3D2") + nl + "77, 1, 2" + nl; break;
    }
  };
  std::vector<double> x = m.v; if (chance (50)) for (auto & v : x) v = v * (1 + (double) draw (1000) / 997.) - (double) draw (50) * 1e-7;
  std::vector<int> order (m.nv); for (int i = 0; i < m.nv; ++i) order[i] = i;
  if (chance (50)) for (int i = m.nv; i > 1; --i) std::swap (order[i - 1], order[draw (i)]);
  int badline = -1, badkind = 0; const char *what = "";
  int lines = m.nv + m.nt;
  if (bad) { badkind = (int) draw (7); badline = badkind < 3 ? (int) draw (m.nv) : badkind < 6 ? m.nv + (int) draw (m.nt) : -1; }
  auto section = [&] (bool nodes) {
    if (fancy) junk ();
    if (nodes) { out += std::string (cased ("*Node", cs, b)) + (chance (30) ? ", nset=n" : "") + nl; }
    for (int i = 0; i < (nodes ? m.nv : m.nt); ++i) {
      if (!nodes && (i == 0 || (fancy && chance (15)))) {
        if (i && chance (40)) junk ();
        static const char *ty[] = { "CPS4", "S4", "C2D4", "CPS4R", "S4R" };
        snprintf (tmp, sizeof tmp, "*Element, type=%s%s", DIM == 3 ? (draw (2) ? "C3D8" : "C3D8R") : ty[draw (5)], chance (40) ? ", ELSET=Surface1" : "");
        out += std::string (cased (tmp, cs, b)) + nl;
      }
      const char *sep = fancy ? ",   " : ", ";
      if (nodes) {
        int v = order[i]; long num = v + 1;
        if (badline == i && badkind == 0) { num = 0; what = "node number 0"; }
        if (badline == i && badkind == 1) { num = chance (50) ? -(long) draw (5) - 1 : (long) m.nv + 1 + (long) draw (9); what = "node number out of range"; }
        snprintf (tmp, sizeof tmp, "%ld%s%.17g%s%.17g%s%.17g", num, sep, x[3 * v], sep, x[3 * v + 1], sep, x[3 * v + 2]);
        if (badline == i && badkind == 2) { snprintf (tmp, sizeof tmp, "%ld, %.17g, %.17g", num, x[3 * v], x[3 * v + 1]); what = "short node"; }
        out += tmp; out += nl;
      } else {
        /* counter clockwise */
        out += std::to_string (fancy ? 1000 - i : i + 1);
        int cnt = NCH; if (badline == m.nv + i && badkind == 3) { cnt = range (1, NCH - 1); what = "short element"; }
        int at = badline == m.nv + i && badkind > 3 ? (int) draw (NCH) : -1;
        static const int ccw[8] = { 0, 1, 3, 2, 4, 5, 7, 6 };
        for (int j = 0; j < cnt; ++j) {
          long v = m.ttv[i * NCH + ccw[j]] + 1;
          if (j == at) { v = badkind == 4 ? 0 : chance (50) ? -(long) draw (5) - 1 : (long) m.nv + 1 + (long) draw (9); what = "element vertex out of range"; }
          out += sep + std::to_string (v);
        }
        out += nl;
      }
    }
  };
  bool efirst = chance (25);
  if (bad && badkind == 6) { bool n = chance (50); what = n ? "no elements" : "no nodes"; section (n); }
  else { section (efirst ? false : true); section (efirst); }
  if (fancy && chance (50)) out += std::string ("*End") + nl;
  if (!tail) while (!out.empty () && (out.back () == '\n' || out.back () == '\r')) out.pop_back ();
  describe ("inp with %d vertices and %d cells, %s, %d lines%s%s; ", m.nv, m.nt, nl == "\n" ? "LF" : "CRLF", lines, tail ? "" : ", no newline at the end", bad ? (std::string (", ") + what).c_str () : "");
  label (bad ? "malformed inp: %s" : "inp", what);
  nontrivial ();
  write_file ("m.inp", out);
  C *c = p4est_connectivity_read_inp ("m.inp");
  if (bad) { CHECK (c == nullptr, "read_inp accepts a file with %s", what); unlink ("m.inp"); checks (); return; }
  CHECK (c != nullptr, "read_inp fails");
  m.v = x;
  Conn k = grab (c, "inp");
  CHECK (p4est_connectivity_is_valid (c), "read_inp returns an invalid mesh");
  check_vmesh (m, k, "read_inp");
  p4est_connectivity_destroy (c);
  /* the stream in two passes */
  FILE *f = fopen ("m.inp", "rb");
  p4est_topidx_t nv = -5, nt = -5;
  CHECK (p4est_connectivity_read_inp_stream (f, &nv, &nt, nullptr, nullptr) == 0 && nv == m.nv && nt == m.nt, "read_inp_stream counts %d vertices and %d trees of %d and %d", (int) nv, (int) nt, m.nv, m.nt);
  rewind (f);
  std::vector<double> v (3 * m.nv + 1, 7.); std::vector<p4est_topidx_t> t (NCH * m.nt + 1, 7);
  CHECK (p4est_connectivity_read_inp_stream (f, &nv, &nt, v.data (), t.data ()) == 0, "read_inp_stream fails in the second pass");
  CHECK (v.back () == 7. && t.back () == 7, "read_inp_stream writes too much");
  v.pop_back (); t.pop_back ();
  CHECK (v == m.v && t == m.ttv, "read_inp_stream: wrong vertices");
  fclose (f); unlink ("m.inp");
  checks (m.nt * NCH + 3 * m.nv);
}
void mode_fault () {
  label ("file errors");
  Subject s = draw_subject (8);
  C *c = make (s);
  CHECK (p4est_connectivity_save ("no/such/directory/c.p4c", c) != 0, "save into a missing directory succeeds");
  if (!access ("/dev/full", W_OK)) CHECK (p4est_connectivity_save ("/dev/full", c) != 0, "save to a full device succeeds");
  size_t bytes = 5;
  CHECK (p4est_connectivity_load ("missing.p4c", &bytes) == nullptr, "load of a missing file succeeds");
  mkdir ("dir.p4c", 0700);
  CHECK (p4est_connectivity_load ("dir.p4c", &bytes) == nullptr, "load of a directory succeeds");
  CHECK (p4est_connectivity_save ("dir.p4c", c) != 0, "save onto a directory succeeds");
  rmdir ("dir.p4c");
  CHECK (p4est_connectivity_read_inp ("missing.inp") == nullptr, "read_inp of a missing file succeeds");
  write_file ("e.inp", chance (50) ? "" : "*Heading\n");
  CHECK (p4est_connectivity_read_inp ("e.inp") == nullptr, "read_inp of an empty file succeeds");
  unlink ("e.inp");
  same (s, c, "after errors");
  p4est_connectivity_destroy (c);
}
void prop () {
  MemMark mm = mem_mark ();
  switch (weighted ({ 25, 30, 20, 25, 3 })) {
  case 0: mode_roundtrip (); break;
  case 1: mode_corrupt (); break;
  case 2: mode_collective (); break;
  case 3: mode_inp (); break;
  default: mode_fault (); break;
  }
  mem_check (mm, "at the end");
}
}
