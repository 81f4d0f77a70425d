// C34: the tolerance given to a geometric test decides how large a miss still
// counts. Unit sized entities are put at a known, small distance or angle from
// satisfying each relation; the test has to say yes when the tolerance is K
// times larger than every deviation, and no when it is K times smaller than
// one of them. Between the two the answer is left open.
#include "acmegeo.hh"
using namespace geo;
static const double K = 40;
static std::vector<double> const & tols() { static std::vector<double> t = {1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.05}; return t; }
static const double DEFTOL = std::sqrt(std::numeric_limits<double>::epsilon());
static long long decided = 0;
#define DECIDE(KIND, CALL, DEV, LOWDEV, T, WHAT) do { int w_ = (LOWDEV) * K <= (T) ? 1 : (DEV) >= K * (T) ? 0 : -1; if (w_ >= 0) { ++decided; bool g_ = CALL; MC_OK(g_ == (w_ == 1), KIND, "%s deviates by %.3g: reported %d at tolerance %.3g", WHAT, (double)(DEV), g_, (double)(T)); } } while (0)

struct Lib {
  acme::line l; acme::ray r; acme::segment s; acme::plane n; acme::triangle t; acme::disk d; char k;
  Lib(Map const & m, Ent const & e) : k(e.k) { switch (k) { case 'L': l = mkL(m, e); break; case 'R': r = mkR(m, e); break; case 'S': s = mkS(m, e); break; case 'N': n = mkN(m, e); break; case 'T': t = mkT(m, e); break; default: d = mkD(m, e); } }
  acme::entity const * p() const { switch (k) { case 'L': return &l; case 'R': return &r; case 'S': return &s; case 'N': return &n; case 'T': return &t; default: return &d; } }
  template <class F> void visit(F f) const { switch (k) { case 'L': f(l); break; case 'R': f(r); break; case 'S': f(s); break; case 'N': f(n); break; case 'T': f(t); break; default: f(d); } }
};
// typed call with or without the tolerance, in whichever argument order exists (t < 0: default)
#define TYPED(F) \
  template <class X, class Y> auto F##2(X const & x, Y const & y, double t, int) -> decltype(acme::F(x, y)) { return t < 0 ? acme::F(x, y) : acme::F(x, y, t); } \
  template <class X, class Y> auto F##2(X const & x, Y const & y, double t, long) -> decltype(acme::F(y, x)) { return t < 0 ? acme::F(y, x) : acme::F(y, x, t); } \
  template <class X, class Y> bool F##2(X const &, Y const &, double, ...) { return false; } \
  static bool F##G(acme::entity const * a, acme::entity const * b, double t) { return t < 0 ? acme::F(a, b) : acme::F(a, b, t); }
TYPED(IsParallel) TYPED(IsOrthogonal) TYPED(IsCoplanar) TYPED(IsCollinear)
template <class X, class Y, class O> static auto meet2(X const & x, Y const & y, O & o, double t, int) -> decltype(acme::Intersection(x, y, o)) { return t < 0 ? acme::Intersection(x, y, o) : acme::Intersection(x, y, o, t); }
template <class X, class Y, class O> static auto meet2(X const & x, Y const & y, O & o, double t, long) -> decltype(acme::Intersection(y, x, o)) { return t < 0 ? acme::Intersection(y, x, o) : acme::Intersection(y, x, o, t); }
static bool meetG(acme::entity const * a, acme::entity const * b, double t) { std::unique_ptr<acme::entity> e(t < 0 ? acme::Intersection(a, b) : acme::Intersection(a, b, t)); return !e->isNone(); }

static P3 turn(P3 const & v, P3 const & a, double t) { return std::cos(t) * v + (std::sin(t) * cross(a, v) + ((1 - std::cos(t)) * dot(a, v)) * a); }
static P3 side(P3 const & n) { return unit(cross(n, std::abs(n[0]) < 0.6 ? P3{1, 0, 0} : P3{0, 1, 0})); }
// unit sized entity of a kind with direction or normal d and origin o
static Ent make(char k, P3 const & o, P3 const & d)
{
  if (k == 'S') return {'S', o, o + d, {0,0,0}, 0};
  if (k == 'T') { P3 u = side(d), v = cross(d, u); return {'T', o - (1./3) * (u + v), o + (2./3) * u - (1./3) * v, o + (2./3) * v - (1./3) * u, 0}; }
  return {k, o, d, {0,0,0}, 1};
}
static P3 anchor(Ent const & e) { return e.k == 'T' ? (1./3) * (e.a + (e.b + e.c)) : e.a; }
static const char KINDS[] = "LRSNTD";
static std::vector<double> scan() { std::vector<double> t = {-1}; t.insert(t.end(), tols().begin(), tols().end()); return t; }

static void relations(Map const & m, Ent const & x, Lib const & X, Ent const & y)
{
  Lib Y(m, y); bool lx = linear(x), ly = linear(y);
  P3 u = unit(lx ? dir(x) : nrm(x)), v = unit(ly ? dir(y) : nrm(y)), w = anchor(y) - anchor(x), c = cross(u, v);
  double al = norm(c), pe = std::abs(dot(u, v)), off;
  std::string q; auto what = [&](char const * r, char const * f) { q = mc::fmt("%s of %s and %s [%s] (%s)", r, str(x).c_str(), str(y).c_str(), m.name, f); return q.c_str(); };
  double par = lx == ly ? al : pe, ort = lx == ly ? pe : al, lat = lx ? norm(cross(w, u)) : 0;
  double copHi = -1, copLo = -1; bool cop = true;
  if (lx && ly) { off = std::abs(dot(w, c)); cop = al >= 0.3 || al == 0; copHi = off; copLo = al ? off / al : 0; }
  else { off = std::max(std::abs(dot(w, lx ? v : u)), std::abs(dot(w, ly ? u : v)) * (lx == ly)); double ang = lx == ly ? al : pe; copHi = std::max(lx == ly ? std::min(std::abs(dot(w, u)), std::abs(dot(w, v))) : off, ang); copLo = std::max(off, ang); }
  for (double t : scan()) {
    double T = t < 0 ? DEFTOL : t; bool g;
    for (int f = 0; f < 3; ++f) {
      acme::entity const * A = f == 1 ? Y.p() : X.p(), * B = f == 1 ? X.p() : Y.p(); char const * fn = f == 0 ? "generic" : f == 1 ? "generic, swapped" : "typed";
#define REL(F) (f < 2 ? F##G(A, B, t) : (X.visit([&](auto const & a) { Y.visit([&](auto const & b) { g = F##2(a, b, t, 0); }); }), g))
      DECIDE("parallel", REL(IsParallel), par, par, T, what("parallel test", fn));
      DECIDE("orthogonal", REL(IsOrthogonal), ort, ort, T, what("orthogonal test", fn));
      if (cop) DECIDE("coplanar", REL(IsCoplanar), copHi, copLo, T, what("coplanar test", fn));
      if (lx && ly) { double ng = std::max(al, lat); DECIDE("collinear", REL(IsCollinear), ng, ng, T, what("collinear test", fn)); }
#undef REL
    }
  }
}
// direct containment tests and the intersection of a point with the entity
template <class X> static bool inP(X const & x, acme::point const & p, double t, bool viaMeet)
{ if (!viaMeet) return t < 0 ? x.isInside(p) : x.isInside(p, t); acme::point o; return t < 0 ? acme::Intersection(p, x, o) : acme::Intersection(p, x, o, t); }
static void inside(Map const & m, Ent const & e, P3 const & p, double dHi, double dLo)
{
  Lib E(m, e); Ent pe = {'P', p, {}, {}, 0}; acme::point P = mkP(m, pe);
  for (double t : scan()) for (int f = 0; f < 4; ++f) {
    double T = t < 0 ? DEFTOL : t; bool g = false;
    std::string q = mc::fmt("point %s in %s [%s] (%s)", ::str(p).c_str(), str(e).c_str(), m.name, f == 0 ? "isInside" : f == 1 ? "typed intersection" : f == 2 ? "generic intersection" : "generic intersection, swapped");
    DECIDE("inside", (f == 2 ? meetG(&P, E.p(), t) : f == 3 ? meetG(E.p(), &P, t) : (E.visit([&](auto const & x) { g = inP(x, P, t, f == 1); }), g)), dHi, dLo, T, q.c_str());
  }
}
// two entities that cross at a well defined place but for gaps
static void crossing(Map const & m, Ent const & x, Ent const & y, double dev, char const * how)
{
  Lib X(m, x), Y(m, y);
  for (double t : scan()) for (int f = 0; f < 3; ++f) {
    double T = t < 0 ? DEFTOL : t;
    std::string q = mc::fmt("%s of %s and %s [%s] (%s)", how, str(x).c_str(), str(y).c_str(), m.name, f == 0 ? "typed" : f == 1 ? "generic" : "generic, swapped");
    acme::point o;
    DECIDE("crossing", (f ? meetG(f == 1 ? X.p() : Y.p(), f == 1 ? Y.p() : X.p(), t) : [&] { bool r = false;
      auto run = [&](auto const & a) { switch (y.k) { case 'L': r = meet2(a, Y.l, o, t, 0); break; case 'R': r = meet2(a, Y.r, o, t, 0); break; case 'S': r = meet2(a, Y.s, o, t, 0); break; case 'N': r = meet2(a, Y.n, o, t, 0); break; case 'T': r = meet2(a, Y.t, o, t, 0); break; default: r = meet2(a, Y.d, o, t, 0); } };
      if (x.k == 'L') run(X.l); else if (x.k == 'R') run(X.r); else run(X.s);
      return r; }()), dev, dev, T, q.c_str());
  }
}
// line-like entity through c along unit u whose start (R, S) or end (S) is g short of c; which: 0 passes, 1 starts after, 2 ends before
static bool reach(char k, P3 const & c, P3 const & u, double g, int which, Ent & e)
{
  if (which && k == 'L') return false; if (which == 2 && k != 'S') return false;
  P3 s = which == 0 ? c - 0.4 * u : which == 1 ? c + g * u : c - (1 + g) * u;
  e = make(k, s, u); return true;
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<Map> M = {maps()[0], {rot(Pose{0,0,0,0.7,-1.1,0.4}), 1, 1, {0.3,-0.2,0.6}, "rotated"}};
  if (th) M.push_back({rot(Pose{0,0,0,-2.3,0.35,2.9}), 1, 1, {-5,4,3}, "rotated 2"});
  std::vector<double> G = {0, 3e-9, 6e-9, 1e-7, 3e-6, 1e-5, 3e-4, 1e-3}; if (th) for (double g : {1e-8, 3e-7, 1e-6, 1e-4, 3e-3}) G.push_back(g);
  std::vector<P3> ax; for (auto const & d : dirs(1)) if (th || dot(d, P3{4, 2, 1}) > 0) ax.push_back(unit(d));
  // 1. relations of two entities, turned and shifted by small amounts
  for (char const * a = KINDS; *a; ++a) for (char const * b = KINDS; *b; ++b)
    for (int base = 0; base < 3; ++base) for (auto const & axis : ax) for (double g : G) for (auto const & m : M)
      mc::kase([&] {
        P3 u = {0, 0, 1}, v0 = base == 0 ? u : base == 1 ? P3{1, 0, 0} : P3{0, 0.6, 0.8};
        Ent x = make(*a, {0.2, -0.1, 0.3}, u); Lib X(m, x);
        P3 v = turn(v0, axis, g);
        for (auto const & sh : {P3{0,0,0}, P3{1,0,0}, P3{0,-1,0}, P3{0,0,1.5}, P3{g,0,0}, P3{0,-g,0}, P3{0,1,g}, P3{g,0,-1}})
          { Ent y = make(*b, anchor(x) + sh, v); relations(m, x, X, y); }
        mc::nontrivial();
      }, [&] { return mc::fmt("kinds %c %c, arrangement %d turned by %g about (%.3g,%.3g,%.3g) [%s]", *a, *b, base, g, axis[0], axis[1], axis[2], m.name); });
  // 2. containment of points, degenerate sizes
  for (char const * a = KINDS; *a; ++a) for (auto const & d0 : ax) for (double g : G) for (auto const & m : M)
    mc::kase([&] {
      Ent e = make(*a, {0.2, -0.1, 0.3}, d0); P3 u = side(d0), v = cross(d0, u), o = anchor(e);
      for (int s = 0; s < 8; ++s) {
        double an = s * MPI / 4 + 0.1; P3 l = std::cos(an) * u + std::sin(an) * v;
        if (linear(e)) {
          double far = e.k == 'S' ? 0.5 : 1; P3 p = o + far * d0 + g * l;
          if (e.k == 'S') { double ex = std::hypot(0.5, g) * 2 - 1; inside(m, e, p, ex, g); } else inside(m, e, p, g, g);
          if (e.k == 'S') { inside(m, e, o + (1 + g) * d0, 2 * g, 2 * g); inside(m, e, o - g * d0, 2 * g, 2 * g); }
          if (e.k == 'R' && g > 0) inside(m, e, o - g * d0, g, g);
          if (e.k != 'S') inside(m, e, o + g * l, g, g);
          if (e.k == 'R') inside(m, e, o - 0.5 * d0 + g * l, 1, 1); else if (e.k == 'L') inside(m, e, o - 0.75 * d0 + g * l, g, g);
        } else {
          for (double sg : {-1.0, 1.0}) inside(m, e, o + 0.1 * l + (sg * g) * d0, g, g);
          if (e.k == 'T') for (int k = 0; k < 3; ++k) { P3 q[3] = {e.a, e.b, e.c}; P3 mid = 0.35 * q[k] + 0.65 * q[(k + 1) % 3], out = unit(mid - q[(k + 2) % 3] ); out = unit(out - dot(out, unit(q[(k + 1) % 3] - q[k])) * unit(q[(k + 1) % 3] - q[k])); inside(m, e, mid + g * out, g, g); inside(m, e, mid - g * out, 0, 0); }
        }
      }
      // small sizes
      P3 U = mul(m.R, u), O = pt(m, o), D = mul(m.R, d0);
      for (double t : scan()) {
        double T = t < 0 ? DEFTOL : t; auto dg = [&](auto const & z) { return t < 0 ? z.isDegenerated() : z.isDegenerated(t); };
        if (*a == 'L') DECIDE("degenerate", dg(acme::line(ap(O), av(g * D))), g, g, T, "degeneracy of a line with a short direction");
        if (*a == 'R') DECIDE("degenerate", dg(acme::ray(ap(O), av(g * D))), g, g, T, "degeneracy of a ray with a short direction");
        if (*a == 'N') DECIDE("degenerate", dg(acme::plane(ap(O), av(g * D))), g, g, T, "degeneracy of a plane with a short normal");
        if (*a == 'S') DECIDE("degenerate", dg(acme::segment(ap(O), ap(O + g * D))), g, g, T, "degeneracy of a short segment");
        if (*a == 'D') { DECIDE("degenerate", dg(acme::disk(g, ap(O), av(D))), g, g, T, "degeneracy of a small disk"); DECIDE("degenerate", dg(acme::disk(1, ap(O), av(g * D))), g, g, T, "degeneracy of a disk with a short normal"); DECIDE("degenerate", dg(acme::ball(g, ap(O))), g, g, T, "degeneracy of a small ball"); }
        if (*a == 'T') for (int k = 0; k < 3; ++k) { P3 q[3] = {O, O + g * D, O + U}; DECIDE("degenerate", dg(acme::triangle(ap(q[k]), ap(q[(k + 1) % 3]), ap(q[(k + 2) % 3]))), g, g, T, "degeneracy of a triangle with two near vertices"); }
        for (double b : {0.0, 1.0, -0.7}) { DECIDE("number", (t < 0 ? acme::IsApprox(b, b + g) : acme::IsApprox(b, b + g, t)), g, g, T, "equality of two numbers"); DECIDE("number", (t < 0 ? acme::IsApprox(b + g, b) : acme::IsApprox(b + g, b, t)), g, g, T, "equality of two numbers"); }
      }
      mc::nontrivial();
    }, [&] { return mc::fmt("kind %c along (%.3g,%.3g,%.3g), miss %g [%s]", *a, d0[0], d0[1], d0[2], g, m.name); });
  // 2b. long segments and far points of planes: the tolerance stays a length
  for (auto const & d0 : ax) for (double L : {8.0, 150.0, 3000.0, 40000.0}) for (double g : G) for (auto const & m : M)
    mc::kase([&] {
      P3 o = {0.2, -0.1, 0.3}, u = side(d0), v = cross(d0, u); double rd = 1e-15 * L;
      Ent s = {'S', o, o + L * d0, {}, 0}, n = make('N', o, d0);
      for (double at : {0.1, 0.5, 0.93}) { inside(m, s, o + (at * L) * d0, rd, rd); P3 p = o + (at * L) * d0 + g * u; double ex = std::hypot(at * L, g) + std::hypot((1 - at) * L, g) - L; inside(m, s, p, std::max(0.0, ex - 4 * rd), ex + 4 * rd); }
      inside(m, s, o + (L + g) * d0, std::max(0.0, 2 * g - 4 * rd), 2 * g + 4 * rd); inside(m, s, o - g * d0, std::max(0.0, 2 * g - 4 * rd), 2 * g + 4 * rd);
      for (int k = 0; k < 8; ++k) { double an = k * MPI / 4 + 0.1; for (double sg : {-1.0, 1.0}) inside(m, n, o + L * (std::cos(an) * u + std::sin(an) * v) + (sg * g) * d0, std::max(0.0, g - 4 * rd), g + 4 * rd); }
      mc::nontrivial();
    }, [&] { return mc::fmt("segment of length %g and plane points %g away, along (%.3g,%.3g,%.3g), miss %g [%s]", L, L, d0[0], d0[1], d0[2], g, m.name); });
  // 3. crossings with gaps
  for (char const * a = KINDS; a < KINDS + 3; ++a) for (char const * b = KINDS; *b; ++b) for (auto const & d0 : ax) for (double g : G) for (auto const & m : M)
    mc::kase([&] {
      P3 c = {0.2, -0.1, 0.3}; bool lin = b < KINDS + 3;
      for (double ang : {40.0, 70.0, 90.0, 125.0}) {
        P3 s = side(d0), u = d0, v = std::cos(ang * DEG) * u + std::sin(ang * DEG) * s, n = unit(cross(u, v));
        if (lin) {
          for (int wx = 0; wx < 3; ++wx) for (int wy = 0; wy < 3; ++wy) for (int sk = 0; sk < 2; ++sk) {
            Ent x, y; if (!reach(*a, c, u, g, wx, x) || !reach(*b, c + (sk ? g : 0) * n, v, g, wy, y)) continue;
            bool miss = wx || wy || sk; crossing(m, x, y, miss ? g : 0, "crossing");
          }
        } else { // b is a surface with normal v' within 50 degrees of u
          P3 nn = std::abs(std::cos(ang * DEG)) > 0.5 ? v : unit(u + 0.4 * s);
          if (std::abs(dot(nn, u)) < 0.5) continue;
          Ent y = make(*b, c, nn);
          for (int wx = 0; wx < 3; ++wx) { Ent x; if (reach(*a, c, u, g, wx, x)) crossing(m, x, y, wx ? g : 0, "piercing"); }
          if (*b == 'T') for (int k = 0; k < 3; ++k) { P3 q[3] = {y.a, y.b, y.c}, ed = unit(q[(k + 1) % 3] - q[k]), mid = 0.35 * q[k] + 0.65 * q[(k + 1) % 3], out = mid - q[(k + 2) % 3]; out = unit(out - dot(out, ed) * ed);
            Ent x; reach(*a, mid + g * out, u, 0, 0, x); crossing(m, x, y, g, "piercing beside an edge"); reach(*a, mid - 0.1 * out, u, 0, 0, x); crossing(m, x, y, 0, "piercing"); }
        }
      }
      // 4. in the surface, or along the line, but for a turn or a shift
      P3 s = side(d0), n = cross(d0, s);
      for (int turned = 0; turned < 2; ++turned) {
        P3 u = turned ? turn(d0, s, g) : d0, o = c + (turned ? 0.0 : g) * n; Lib X(m, make(*a, o, u)); Ent ye = make(*b, c, lin ? d0 : n); Lib Y(m, ye);
        for (double t : scan()) {
          double T = t < 0 ? DEFTOL : t; acme::line l; acme::ray r; acme::segment sg; std::string w = mc::fmt("common part of %c and %c [%s]", *a, *b, m.name);
          auto M3 = [&](auto const & X_, auto const & Y_, auto & o_) { DECIDE("part", meet2(X_, Y_, o_, t, 0), g, g, T, w.c_str()); };
          if (!lin) {
            auto S = [&](auto const & y) { if (*a == 'L') M3(X.l, y, l); else if (*a == 'R') M3(X.r, y, r); else M3(X.s, y, sg); };
            if (*b == 'N') S(Y.n);
            if (*b == 'T') { auto S2 = [&](auto const & x) { M3(x, Y.t, sg); }; if (*a == 'L') S2(X.l); else if (*a == 'R') S2(X.r); else S2(X.s); }
          }
          else if (*a == 'L' && *b == 'L') M3(X.l, Y.l, l);
          else if (*a == 'L' && *b == 'R') M3(X.l, Y.r, r);
          else if (*a == 'R' && *b == 'L') M3(X.r, Y.l, r);
          else if (*a == 'L' && *b == 'S') M3(X.l, Y.s, sg);
          else if (*a == 'S' && *b == 'L') M3(X.s, Y.l, sg);
          else if (*a == 'R' && *b == 'R') M3(X.r, Y.r, r);
          else for (double at : {-0.6, -0.2, 0.4}) for (int back = 0; back < 2; ++back) { // segments and rays sharing a stretch
            Ent xs = make(*a, o, u), ys = make(*b, c + at * d0, d0);
            if (*b == 'S') { if (back) std::swap(ys.a, ys.b); }
            else if (*a == 'S') { if (back) std::swap(xs.a, xs.b); }
            Lib XS(m, xs), YS(m, ys); w = mc::fmt("shared stretch of %s and %s [%s]", str(xs).c_str(), str(ys).c_str(), m.name);
            auto P3_ = [&](auto const & p, auto const & q) { DECIDE("part", meet2(p, q, sg, t, 0), g, g, T, w.c_str()); };
            if (*a == 'S' && *b == 'S') P3_(XS.s, YS.s); else if (*a == 'S') P3_(XS.s, YS.r); else P3_(XS.r, YS.s);
            w = "generic " + w;
            auto G4 = [&] { std::unique_ptr<acme::entity> e(t < 0 ? acme::Intersection(XS.p(), YS.p()) : acme::Intersection(XS.p(), YS.p(), t)); return e->isSegment(); };
            DECIDE("part", G4(), g, g, T, w.c_str());
          }
          // the generic form reports the part as well
          for (int f = 0; f < 2; ++f) { w = mc::fmt("generic common part of %c and %c [%s]", *a, *b, m.name);
            auto G3 = [&] { std::unique_ptr<acme::entity> e(t < 0 ? acme::Intersection(f ? Y.p() : X.p(), f ? X.p() : Y.p()) : acme::Intersection(f ? Y.p() : X.p(), f ? X.p() : Y.p(), t)); return e->isLine() || e->isRay() || e->isSegment(); };
            if (lin ? (*a == 'L' || *b == 'L' || (*a == 'R' && *b == 'R')) : true) DECIDE("part", G3(), g, g, T, w.c_str()); }
        }
      }
      mc::nontrivial();
    }, [&] { return mc::fmt("kinds %c %c along (%.3g,%.3g,%.3g), gap %g [%s]", *a, *b, d0[0], d0[1], d0[2], g, m.name); });
  // collinear segments end to end, or nearly: an answer is always given
  for (double len : {0.05, 0.3, 1.0, 3.0}) for (double T : tols()) for (auto const & m : M) for (auto const & d0 : ax)
    mc::kase([&] {
      P3 s = side(d0), c = {0.2, -0.1, 0.3}; int N = th ? 40 : 20;
      for (int i = -3; i <= N; ++i) for (int j = 0; j <= N; ++j) for (int w = 0; w < 8; ++w) {
        double gx = T * i / N, gy = T * j / N, dev = std::hypot(gx, gy);
        Ent x = {'S', c - d0, c, {0,0,0}, 0}, y = {'S', c + gx * d0 + gy * s, c + (gx + len) * d0 + gy * s, {0,0,0}, 0};
        if (w & 1) std::swap(x.a, x.b); if (w & 2) std::swap(y.a, y.b);
        acme::segment X = mkS(m, w & 4 ? y : x), Y = mkS(m, w & 4 ? x : y), o; bool g = false; std::string err;
        try { g = acme::Intersection(X, Y, o, T); } catch (std::exception const & e) { err = e.what(); }
        MC_OK(err.empty(), "touching", "segments of length 1 and %.3g end to end but for %.3g along and %.3g across, tolerance %.3g [%s]: %s", len, gx, gy, T, m.name, err.c_str());
        if (K * dev <= T) MC_OK(g, "touching", "segments of length 1 and %.3g end to end but for %.3g along and %.3g across, tolerance %.3g [%s]: no common part", len, gx, gy, T, m.name);
        if (g) for (int k = 0; k < 2; ++k) { acme::point const & ov = o.vertex(k); P3 v = {ov[0], ov[1], ov[2]}; double df = std::min(norm(v - pt(m, x.a)), std::min(norm(v - pt(m, x.b)), std::min(norm(v - pt(m, y.a)), norm(v - pt(m, y.b))))); MC_OK(df < 1e-9, "touching", "common part of touching segments ends at (%.9g,%.9g,%.9g), which is no end of either", v[0], v[1], v[2]); }
      }
      mc::nontrivial();
    }, [&] { return mc::fmt("touching segments of length 1 and %g along (%.3g,%.3g,%.3g), tolerance %g [%s]", len, d0[0], d0[1], d0[2], T, m.name); });
  // 5. two planar entities in nearly the same plane
  for (char const * b = KINDS + 3; *b; ++b) for (auto const & d0 : ax) for (double g : G) for (auto const & m : M)
    mc::kase([&] {
      P3 c = {0.2, -0.1, 0.3}, s = side(d0);
      for (int turned = 0; turned < 2; ++turned) {
        Lib X(m, make('N', c + (turned ? 0.0 : g) * d0, turned ? turn(d0, s, g) : d0)), Y(m, make(*b, c, d0));
        for (double t : scan()) {
          double T = t < 0 ? DEFTOL : t; acme::plane p; acme::triangle tr; acme::disk dk; std::string w = mc::fmt("common part of N and %c [%s]", *b, m.name);
          DECIDE("part", (*b == 'N' ? meet2(X.n, Y.n, p, t, 0) : *b == 'T' ? meet2(X.n, Y.t, tr, t, 0) : meet2(X.n, Y.d, dk, t, 0)), g, g, T, w.c_str());
          for (int f = 0; f < 2; ++f) {
            w = mc::fmt("generic common part of N and %c [%s]", *b, m.name);
            auto G3 = [&] { std::unique_ptr<acme::entity> e(t < 0 ? acme::Intersection(f ? Y.p() : X.p(), f ? X.p() : Y.p()) : acme::Intersection(f ? Y.p() : X.p(), f ? X.p() : Y.p(), t)); return e->isPlane() || e->isTriangle() || e->isDisk(); };
            DECIDE("part", G3(), g, g, T, w.c_str());
          }
        }
      }
      mc::nontrivial();
    }, [&] { return mc::fmt("plane and %c with normal (%.3g,%.3g,%.3g), miss %g [%s]", *b, d0[0], d0[1], d0[2], g, m.name); });
  return mc::finish();
}
