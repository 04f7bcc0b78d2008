/* Geometry: maps against reference formulas, continuity across trees, vertices, and node coordinates */
#include "entity.h"
#include "conn_common.h"
#include <cmath>
#if VDIM == 3
#include <p8est_geometry.h>
#include <p8est_ghost.h>
#include <p8est_lnodes.h>
#else
#include <p4est_geometry.h>
#include <p4est_ghost.h>
#include <p4est_lnodes.h>
#endif
namespace DNS {
using namespace eng;
typedef std::array<double, 3> V3;
static const double PI = 3.14159265358979323846;
static double norm (const V3 & v) { return std::sqrt (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
static V3 scaled (V3 v, double s) { for (auto & x : v) x *= s; return v; }
static V3 add (V3 a, const V3 & b) { for (int i = 0; i < 3; ++i) a[i] += b[i]; return a; }
static V3 slerp (const V3 & a, const V3 & b, double t) {
  double l = norm (a) * norm (b), th = std::acos ((a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / l);
  return add (scaled (a, std::sin ((1 - t) * th) / std::sin (th)), scaled (b, std::sin (t * th) / std::sin (th)));
}
static std::string show (const V3 & v) { char s[120]; snprintf (s, sizeof s, "(%.12g, %.12g, %.12g)", v[0], v[1], v[2]); return s; }
static void close (const V3 & a, const V3 & b, double tol, const char *what, const std::string & at) {
  for (int i = 0; i < 3; ++i) CHECK (std::fabs (a[i] - b[i]) <= tol, "%s at %s: got %s, expected %s", what, at.c_str (), show (a).c_str (), show (b).c_str ());
}
static std::string where (int t, const V3 & r) { char s[160]; snprintf (s, sizeof s, "tree %d reference (%.12g, %.12g%s", t, r[0], r[1], ""); std::string o = s; if (DIM == 3) { snprintf (s, sizeof s, ", %.12g", r[2]); o += s; } return o + ")"; }

static V3 multilinear (const Conn & c, int t, const V3 & r) {
  V3 o { { 0, 0, 0 } };
  for (int k = 0; k < NCH; ++k) {
    double w = 1;
    for (int a = 0; a < DIM; ++a) w *= (k >> a) & 1 ? r[a] : 1 - r[a];
    for (int j = 0; j < 3; ++j) o[j] += w * c.vertices[3 * c.ttv[t * NCH + k] + j];
  }
  return o;
}
/* the curve-sided square of Calhoun, Helzel and LeVeque: the square of half side d goes to arcs of radius R through (D, D) */
static void arc (double x, double y, double D, double R, double d, double & xp, double & yp) {
  double ax = std::fabs (x), ay = std::fabs (y), hi = std::max (ax, ay), lo = std::min (ax, ay);
  (void) hi;
  if (d == 0) { xp = yp = 0; return; }
  double l = D / d * lo, c = D - std::sqrt (std::max (0., R * R - D * D)), h = c + std::sqrt (std::max (0., R * R - l * l));
  xp = std::copysign (x == 0 ? 0 : ax >= ay ? h : l, x); yp = std::copysign (y == 0 ? 0 : ay >= ax ? h : l, y);
}

struct Shape { const char *name; double r[3] = { 1, 1, 1 }; int kind = 0, n = 1; };
enum { CONN, ICO, SHELL, DISK, SPHERE, PILLOW, PILLOW1, TORUS };

/* position documented by the formula of the shape */
static V3 reference (const Shape & s, const Conn & c, int t, const V3 & r) {
  V3 m { { 0, 0, 0 } };
  if (s.kind != PILLOW && s.kind != PILLOW1 && s.kind != ICO) m = multilinear (c, t, r);
  switch (s.kind) {
  case CONN: return m;
#if VDIM == 2
  case ICO: {
    double g = (1 + std::sqrt (5.)) / 2, q = 1 / g;
    static const int tn[10][4] = { {1,6,0,2},{6,11,2,7},{2,7,0,3},{7,11,3,8},{3,8,0,4},{8,11,4,9},{4,9,0,5},{9,11,5,10},{5,10,0,1},{10,11,1,6} };
    const V3 N[12] = { {{0,-q,1}},{{q,-1,0}},{{1,0,q}},{{0,q,1}},{{-1,0,q}},{{-q,-1,0}},{{1,0,-q}},{{q,1,0}},{{-q,1,0}},{{-1,0,-q}},{{0,-q,-1}},{{0,q,-1}} };
    V3 a = slerp (N[tn[t][0]], N[tn[t][1]], r[0]), b = slerp (N[tn[t][2]], N[tn[t][3]], r[0]);
    V3 o = slerp (a, b, r[1]);
    return scaled (o, s.r[0] / norm (o));
  }
  case SHELL: {        /* polar: angle linear in the first coordinate, radius exponential in the second */
    double th = m[0] * PI / 4 + (t / 2) * PI / 2, R = s.r[1] * std::pow (s.r[0] / s.r[1], m[1] - 1);
    return V3 { { R * std::cos (th), R * std::sin (th), 0 } };
  }
  case SPHERE: for (auto & x : m) x -= .5; return scaled (m, s.r[0] / norm (m));
  case PILLOW: {
    double x = 2 * r[0] - 1, y = 2 * r[1] - 1, d = std::max (std::fabs (x), std::fabs (y)), xp, yp, S = std::sin (PI * d / 2);
    arc (x, y, S / std::sqrt (2.), S, d, xp, yp);
    return scaled (V3 { { xp, yp, (t ? 1 : -1) * std::sqrt (std::max (0., 1 - xp * xp - yp * yp)) } }, s.r[0]);
  }
  case PILLOW1: {
    double x = 2 * r[0] - 1, y = 2 * r[1] - 1, d = std::max (std::fabs (x), std::fabs (y)), xp, yp, R = s.r[0];
    if (s.n == 3) {
      double l = std::max (std::hypot (x, y), 1e-10), w = d * d;
      return V3 { { w * R * d * x / l + (1 - w) * x / std::sqrt (2.), w * R * d * y / l + (1 - w) * y / std::sqrt (2.), 0 } };
    }
    arc (x, y, R * (s.n == 2 ? d * (2 - d) : d) / std::sqrt (2.), s.n == 0 ? R * d : R, d, xp, yp);
    return V3 { { xp, yp, 0 } };
  }
#else
  case PILLOW: {
    double x = 2 * r[0] - 1, y = 2 * r[1] - 1, d = std::max (std::max (std::fabs (x), std::fabs (y)), 1e-10), xp, yp;
    arc (x, y, d * (2 - d) / std::sqrt (2.), 1, d, xp, yp);
    return scaled (V3 { { xp, yp, (t ? -1 : 1) * std::sqrt (std::max (0., 1 - xp * xp - yp * yp)) } }, s.r[1] + (t ? 1 - r[2] : r[2]) * (s.r[0] - s.r[1]));
  }
  case PILLOW1: {
    V3 x { { 2 * r[0] - 1, 2 * r[1] - 1, 2 * r[2] - 1 } };
    double d = std::max (std::fabs (x[0]), std::max (std::fabs (x[1]), std::fabs (x[2])));
    V3 o = scaled (x, s.r[0] * d / std::max (norm (x), 1e-10));
    if (s.n == 1) return o;
    return add (scaled (o, d * d), scaled (x, (1 - d * d) / std::sqrt (3.)));
  }
  case SHELL: {
    double x = std::tan (m[0] * PI / 4), y = std::tan (m[1] * PI / 4), R = s.r[1] * std::pow (s.r[0] / s.r[1], m[2] - 1);
    V3 o;
    switch (t / 4) { case 0: o = V3 { { 1, -x, -y } }; break; case 1: o = V3 { { -y, -x, -1 } }; break; case 2: o = V3 { { -1, -x, y } }; break;
      case 3: o = V3 { { y, -x, 1 } }; break; case 4: o = V3 { { -x, 1, y } }; break; default: o = V3 { { x, -1, y } }; }
    return scaled (o, R / norm (o));
  }
  case SPHERE: {
    double R2 = s.r[0], R1 = s.r[1], R0 = s.r[2];
    if (t == 12) return scaled (m, R0 / std::sqrt (3.));
    double x, y, q, tx = std::tan (m[0] * PI / 4), ty = std::tan (m[1] * PI / 4), z = m[2];
    if (t < 6) {
      double u = z - 13. / 8, e = z - 1;
      if (std::fabs (u) < 1. / 8) e += 0.008873 * std::exp (64. - 1. / (1. / 64 - u * u));
      x = tx, y = ty; q = R1 * std::pow (R2 / R1, e) / std::sqrt (1 + x * x + y * y);
    }
    else {
      double p = 2 - z;
      x = p * m[0] + (1 - p) * tx; y = p * m[1] + (1 - p) * ty;
      q = R0 * std::pow (R1 / R0, z - 1) / std::sqrt (1 + 2 * p + (1 - p) * (tx * tx + ty * ty));
    }
    V3 o;
    switch (t % 6) { case 0: o = V3 { { x, -1, y } }; break; case 1: o = V3 { { x, y, 1 } }; break; case 2: o = V3 { { x, 1, -y } }; break;
      case 3: o = V3 { { 1, -x, -y } }; break; case 4: o = V3 { { -y, -x, -1 } }; break; default: o = V3 { { -1, -x, y } }; }
    return scaled (o, q);
  }
#endif
  case DISK: case TORUS: {
    double R0 = s.r[0], R1 = s.r[1], x, y;
    if (t % 5 == 4) x = m[0] * R0 / std::sqrt (2.), y = m[1] * R0 / std::sqrt (2.);
    else {
      double p = 2 - m[1], tx = -std::tan (m[0] * PI / 4), w = -p * m[0] + (1 - p) * tx, q = R0 * std::pow (R1 / R0, m[1] - 1) / std::sqrt (1 + p + (1 - p) * tx * tx);
      double th = -(t % 5) * PI / 2;    /* a quarter turn for every side */
      double C = std::round (std::cos (th)), S = std::round (std::sin (th));
      x = q * (C - S * w); y = q * (S + C * w);
    }
    if (s.kind == DISK) return V3 { { x, y, 0 } };
    double phi = 2 * PI / s.n * (t / 5 + r[2]);
    return V3 { { (x + s.r[2]) * std::cos (phi), y, (x + s.r[2]) * std::sin (phi) } };
  }
  default: fail ("unknown shape");
  }
}
/* documented radii on the boundary of the shape */
static void documented (const Shape & s, const Conn & c, int t, const V3 & r, const V3 & X, double tol, const std::string & at) {
  double n = norm (X);
  auto on = [&] (double R, const char *what) { CHECK (std::fabs (n - R) <= tol, "%s at %s is at distance %.12g from the center, expected %.12g (%s)", s.name, at.c_str (), n, R, what); };
  auto edge = [&] (double v) { return v == 0 || v == 1; };
  (void) edge; (void) c; (void) t;
  switch (s.kind) {
  case ICO: on (s.r[0], "radius"); break;
  case SPHERE: if (DIM == 2) on (s.r[0], "radius"); else if (r[2] == 1 && t < 6) on (s.r[0], "outer radius"); else if (r[2] == 0 && t < 6) on (s.r[1], "outer radius of the inner shell"); break;
  case PILLOW: if (DIM == 2) on (s.r[0], "radius"); else on (s.r[1] + (t ? 1 - r[2] : r[2]) * (s.r[0] - s.r[1]), "radius"); break;
  case PILLOW1: if (edge (r[0]) || edge (r[1]) || (DIM == 3 && edge (r[2]))) on (s.r[0], "radius"); break;
  case SHELL: { double z = r[DIM - 1]; if (edge (z)) on (z == 1 ? s.r[0] : s.r[1], "shell radius"); break; }
  default: break;
  }
}

static V3 sample (int level) {
  V3 r { { 0, 0, 0 } };
  for (int a = 0; a < DIM; ++a)
    switch (weighted ({ 25, 25, 15, 35 })) {
    case 0: r[a] = 0; break;
    case 1: r[a] = 1; break;
    case 2: r[a] = .5; break;
    default: r[a] = std::ldexp ((double) draw (1u << level), -level);
    }
  return r;
}

static void shapes () {
#if VDIM == 2
  static const int kinds[] = { CONN, ICO, SHELL, DISK, SPHERE, PILLOW, PILLOW1 };
  int kind = kinds[weighted ({ 20, 12, 14, 14, 10, 15, 15 })];
#else
  static const int kinds[] = { CONN, PILLOW, PILLOW1, SHELL, SPHERE, TORUS };
  int kind = kinds[weighted ({ 20, 15, 15, 15, 20, 15 })];
#endif
  Shape s; s.kind = kind;
  static const double radii[] = { 1, 0.5, 0.191, 2, 3.48, 0.001, 100, 6371, 1e-6, 7.77 };
  double a = radii[draw (10)], f1 = 1 + (1 + draw (40)) / 8., f2 = 1 + (1 + draw (40)) / 8.;
  p4est_connectivity_t *pc = nullptr; p4est_geometry_t *g = nullptr; Conn c;
  switch (kind) {
  case CONN: s.name = "connectivity"; c = draw_conn (24, true); pc = c.make (); g = p4est_geometry_new_connectivity (pc); break;
#if VDIM == 2
  case ICO: s.name = "icosahedron"; s.r[0] = a; pc = p4est_connectivity_new_icosahedron (); g = p4est_geometry_new_icosahedron (pc, a); break;
  case SHELL: s.name = "shell2d"; s.r[1] = a; s.r[0] = a * f1; pc = p4est_connectivity_new_shell2d (); g = p4est_geometry_new_shell2d (pc, s.r[0], s.r[1]); break;
  case DISK: s.name = "disk2d"; s.r[0] = a; s.r[1] = a * f1; pc = p4est_connectivity_new_disk2d (); g = p4est_geometry_new_disk2d (pc, s.r[0], s.r[1]); break;
  case SPHERE: s.name = "sphere2d"; s.r[0] = a; pc = p4est_connectivity_new_cubed (); g = p4est_geometry_new_sphere2d (pc, a); break;
  case PILLOW: s.name = "pillow"; s.r[0] = a; pc = p4est_connectivity_new_pillow (); g = p4est_geometry_new_pillow (pc, a); break;
  case PILLOW1: s.name = "pillow_disk"; s.r[0] = a; s.n = (int) draw (4); pc = p4est_connectivity_new_unitsquare (); g = p4est_geometry_new_pillow_disk (pc, a, (pillow_disk_config_t) s.n); break;
#else
  case PILLOW: s.name = "pillow"; s.r[1] = a; s.r[0] = a * f1; pc = p8est_connectivity_new_pillow (); g = p8est_geometry_new_pillow (pc, s.r[0], s.r[1]); break;
  case PILLOW1: s.name = "pillow_sphere"; s.r[0] = a; s.n = 1 + (int) draw (2); pc = p8est_connectivity_new_unitcube (); g = p8est_geometry_new_pillow_sphere (pc, a, s.n == 2 ? FIG52C : FIG52B); break;
  case SHELL: s.name = "shell"; s.r[1] = a; s.r[0] = a * f1; pc = p8est_connectivity_new_shell (); g = p8est_geometry_new_shell (pc, s.r[0], s.r[1]); break;
  case SPHERE: s.name = "sphere"; s.r[2] = a; s.r[1] = a * f1; s.r[0] = s.r[1] * f2; pc = p8est_connectivity_new_sphere (); g = p8est_geometry_new_sphere (pc, s.r[0], s.r[1], s.r[2]); break;
  case TORUS: s.name = "torus"; s.n = 1 + (int) draw (7); s.r[0] = a; s.r[1] = a * f1; s.r[2] = s.r[1] * (f2 + .5); pc = p8est_connectivity_new_torus (s.n); g = p8est_geometry_new_torus (pc, s.r[0], s.r[1], s.r[2]); break;
#endif
  }
  if (kind != CONN) c.from (pc), c.finish ();
  double size = 0;
  if (kind == CONN) for (double v : c.vertices) size = std::max (size, std::fabs (v)); else { size = std::max (s.r[0], std::max (s.r[1], s.r[2])); if (kind == PILLOW1) size = std::max (size, 1.); }
  if (kind == TORUS) size *= 2;
  double tol = 1e-11 * size;
  /* square roots of differences that vanish at the boundary lose half of the digits there */
  double rtol = kind == PILLOW || kind == PILLOW1 ? 3e-7 * size : tol;
  label ("%s", s.name);
  describe ("%s with %d trees, radii %g %g %g, variant %d; ", s.name, c.nt, s.r[0], s.r[1], s.r[2], s.n);
  int N = thorough () ? 60 : 24, crossings = 0;
  CHECK (g->X != NULL && g->name != NULL, "incomplete geometry");
  auto eval = [&] (int t, const V3 & r) {
    V3 x { { -1e33, -1e33, -1e33 } }; double in[3] = { r[0], r[1], DIM == 3 ? r[2] : std::nan ("") };
    g->X (g, t, in, x.data ());
    for (int j = 0; j < 3; ++j) CHECK (std::isfinite (x[j]) && x[j] != -1e33, "%s at %s: coordinate %d is %g", s.name, where (t, r).c_str (), j, x[j]);
    return x;
  };
  for (int n = 0; n < N; ++n) {
    int t = (int) draw (c.nt), level = (int) weighted ({ 1, 1, 1, 1, 1, 1, 1, 1, 1 }) * 2 + 1;
    V3 r = sample (level);
    V3 X = eval (t, r);
    std::string at = where (t, r);
    close (X, reference (s, c, t, r), rtol, s.name, at);
    documented (s, c, t, r, X, tol * 100, at);
    Pt p; p4est_qcoord_t co[3];
    for (int a = 0; a < DIM; ++a) p.x[a] = (i64) std::ldexp (r[a], ML), co[a] = (p4est_qcoord_t) p.x[a];
    V3 T { { 0, 0, 0 } };
    p4est_geometry_transform_coordinates (g, t, co, T.data ());
    close (T, X, tol, "transform_coordinates", at);
    if (!c.vertices.empty ()) {
      double vs = 0; for (double v : c.vertices) vs = std::max (vs, std::fabs (v));
      V3 m = multilinear (c, t, r), q { { 7, 7, 7 } };
      p4est_qcoord_to_vertex (pc, t, co[0], co[1],
#if VDIM == 3
                              co[2],
#endif
                              q.data ());
      close (q, m, 1e-12 * vs, "qcoord_to_vertex", at);
      if (EntityModel::interior (p)) label ("interior");
    }
    if (kind != CONN)
      for (auto & k : c.point_class (t, p)) {
        V3 rr { { 0, 0, 0 } };
        for (int a = 0; a < DIM; ++a) rr[a] = std::ldexp ((double) k.second.x[a], -ML);
        close (eval (k.first, rr), X, rtol, "identified point of another tree", at + " seen from " + where (k.first, rr));
        crossings += k.first != t || !(k.second == p);
      }
  }
  if (crossings > 1 || kind == CONN || kind == PILLOW1) nontrivial ();
  p4est_geometry_destroy (g);
  p4est_connectivity_destroy (pc);
}

static void twisted_X (p4est_geometry_t * g, p4est_topidx_t t, const double abc[3], double xyz[3]) {
  xyz[0] = abc[0] + 10 * t + 0.25 * abc[1] * abc[1];
  xyz[1] = 3 * abc[1] - abc[0];
  xyz[2] = DIM == 3 ? 5 * abc[2] + abc[0] * abc[1] : *(double *) g->user;
}

static void nodes () {
  Built b; BuildOpts o; o.balance_codim = DIM; o.maxleaves = thorough () ? 300 : 120; o.maxP = 7; o.data = false;
  draw_built (b, o);
  EntityModel em; em.init (b.conn, b.forest);
  int deg = 1 + (int) draw (2), vn = 1; for (int a = 0; a < DIM; ++a) vn *= deg + 1;
  bool simple = chance (30), geo = draw (2), stale = draw (2);
  std::vector<std::vector<std::pair<int, Pt>>> pos (em.leaves.size ());
  bool hang = false, outer = false;
  for (i64 i = 0; i < (i64) em.leaves.size (); ++i)
    for (int k = 0; k < vn; ++k) {
      int q = k, num[3] = { 0, 0, 0 }; Ent e;
      for (int a = 0; a < DIM; ++a) { num[a] = q % (deg + 1); q /= deg + 1; e.c[a] = num[a] == 0 ? 0 : num[a] == deg ? 1 : 2; }
      bool h = em.hangs (i, e); hang |= h;
      Leaf l = h ? em.leaves[i].l.parent () : em.leaves[i].l;
      Pt p = deinterleave (l.key);
      for (int a = 0; a < DIM; ++a) p.x[a] = deg * p.x[a] + num[a] * qlen (l.level);
      pos[i].push_back ({ em.leaves[i].tree, p });
    }
  label ("nodes degree %d%s%s", deg, simple ? " simple" : "", geo ? " mapped" : "");
  if (hang) { label ("hanging"); nontrivial (); }
  (void) outer;
  double u = 42;
  MemMark mm = mem_mark (); sim::Report rep;
  sim::run (b.cfg, [&] (int me) {
    p4est_t *p = build (b);
    p4est_ghost_t *gl = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    p4est_lnodes_t *ln = p4est_lnodes_new (p, gl, deg);
    p4est_geometry_t g; memset (&g, 0, sizeof g); g.name = "twisted"; g.user = &u; g.X = twisted_X;
    sc_array_t *co = sc_array_new (3 * sizeof (double)), *ec = simple ? NULL : sc_array_new (sizeof (p4est_locidx_t));
    if (stale) { sc_array_resize (co, 17); memset (co->array, 1, 17 * 24); if (ec) { sc_array_resize (ec, 3); memset (ec->array, 1, 12); } }
    p4est_geometry_coordinates_lnodes (p, ln, NULL, geo ? &g : NULL, co, ec);
    i64 n = b.cuts[me + 1] - b.cuts[me], first = b.cuts[me];
    auto expect = [&] (const std::pair<int, Pt> & q) {
      V3 r { { 0, 0, 0 } }, x; for (int a = 0; a < DIM; ++a) r[a] = std::ldexp ((double) q.second.x[a] / deg, -ML);
      if (!geo) return r;
      twisted_X (&g, q.first, r.data (), x.data ());
      return x;
    };
    auto got = [&] (i64 i) { double *d = (double *) sc_array_index (co, (size_t) i); return V3 { { d[0], d[1], d[2] } }; };
    if (simple) {
      CHECK ((i64) co->elem_count == ln->num_local_nodes, "process %d: %zu coordinates for %d nodes", me, co->elem_count, ln->num_local_nodes);
      std::vector<int> ok (ln->num_local_nodes, 0);
      std::vector<std::string> seen (ln->num_local_nodes);
      for (i64 i = 0; i < n; ++i) for (int k = 0; k < vn; ++k) {
        int l = ln->element_nodes[i * vn + k];
        V3 x = expect (pos[first + i][k]), y = got (l); double d = 0;
        for (int j = 0; j < 3; ++j) d = std::max (d, std::isfinite (y[j]) ? std::fabs (x[j] - y[j]) : 1.);
        if (d <= 1e-12 * (1 + 10 * b.conn.nt)) ok[l] = 1; else if (!ok[l]) ok[l] = 0, seen[l] += show (x) + " ";
      }
      for (int l = 0; l < ln->num_local_nodes; ++l) CHECK (ok[l], "process %d: node %d has coordinates %s, which is none of its positions %s", me, l, show (got (l)).c_str (), seen[l].c_str ());
    }
    else {
      CHECK ((i64) ec->elem_count == n * vn, "process %d: %zu element coordinates for %lld elements", me, ec->elem_count, (long long) n);
      std::map<std::pair<int, Pt>, int> at; std::vector<int> used (co->elem_count, 0);
      for (i64 i = 0; i < n; ++i) for (int k = 0; k < vn; ++k) {
        int l = *(p4est_locidx_t *) sc_array_index (ec, (size_t) (i * vn + k));
        const GL & q = b.leaves[first + i];
        CHECK (l >= 0 && l < (i64) co->elem_count, "process %d: coordinate %d of %s has index %d of %zu", me, k, str (q.tree, q.l).c_str (), l, co->elem_count);
        close (got (l), expect (pos[first + i][k]), 1e-12 * (1 + 10 * b.conn.nt), "node coordinate", str (q.tree, q.l) + " node " + std::to_string (k));
        auto r = at.insert ({ pos[first + i][k], l });
        CHECK (r.first->second == l, "process %d: two coordinates for one location, node %d of %s", me, k, str (q.tree, q.l).c_str ());
        CHECK (!r.second || !used[l]++, "process %d: one coordinate for two locations, node %d of %s", me, k, str (q.tree, q.l).c_str ());
      }
      CHECK (at.size () == co->elem_count, "process %d: %zu coordinates for %zu locations", me, co->elem_count, at.size ());
      sc_array_destroy (ec);
    }
    sc_array_destroy (co);
    p4est_lnodes_destroy (ln); p4est_ghost_destroy (gl); destroy (p);
  }, &rep);
  mem_check (mm, "after coordinates");
  CHECK (rep.messages == 0 && rep.requests == 0, "left behind: %s", rep.text ().c_str ());
}
void prop () {
  if (chance (45)) nodes (); else shapes ();
}
}
