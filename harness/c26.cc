// C26: parallel, orthogonal, collinear and coplanar tests.
#include "acmegeo.hh"
using namespace geo;
static Ent shift(Ent e, P3 d) { e.a = e.a + d; if (e.k == 'T' || e.k == 'S') e.b = e.b + d; if (e.k == 'T') e.c = e.c + d; return e; }
struct Rel { bool par, ort, col, cop; };
static Rel truth(Ent const & x, Ent const & y)
{
  Rel r; bool lx = linear(x), ly = linear(y); P3 u = lx ? dir(x) : nrm(x), v = ly ? dir(y) : nrm(y), w = y.a - x.a;
  bool al = zero(cross(u, v)), pe = zero(dot(u, v));
  r.par = lx == ly ? al : pe; r.ort = lx == ly ? pe : al;
  r.col = lx && ly && al && zero(cross(w, u));
  r.cop = lx && ly ? zero(dot(w, cross(u, v))) : lx ? pe && zero(dot(w, v)) : ly ? pe && zero(dot(w, u)) : al && zero(dot(w, u));
  return r;
}
// typed call in whichever argument order exists
#define TYPED(F) \
  template <class X, class Y> auto F##2(X const & x, Y const & y, int) -> decltype(acme::F(x, y)) { return acme::F(x, y); } \
  template <class X, class Y> bool F##2(X const & x, Y const & y, long) { return acme::F(y, x); }
TYPED(IsParallel) TYPED(IsOrthogonal) TYPED(IsCoplanar)
#undef TYPED
template <class X, class Y> static auto collinear2(X const & x, Y const & y, int) -> decltype(acme::IsCollinear(x, y)) { return acme::IsCollinear(x, y); }
template <class X, class Y> static auto collinear2(X const & x, Y const & y, long) -> decltype(acme::IsCollinear(y, x)) { return acme::IsCollinear(y, x); }
template <class X, class Y> static bool collinear2(X const &, Y const &, ...) { return false; } // no typed form: never collinear
struct Lib {
  acme::line l; acme::ray r; acme::segment s; acme::plane n; acme::triangle t; acme::disk d; char k; P3 v;
  Lib(Map const & m, Ent const & e) : k(e.k) { switch (k) { case 'L': l = mkL(m, e); break; case 'R': r = mkR(m, e); break; case 'S': s = mkS(m, e); break; case 'N': n = mkN(m, e); break; case 'T': t = mkT(m, e); break; default: d = mkD(m, e); } }
  acme::entity const * p() const { switch (k) { case 'L': return &l; case 'R': return &r; case 'S': return &s; case 'N': return &n; case 'T': return &t; default: return &d; } }
  template <class F> void visit(F f) const { switch (k) { case 'L': f(l); break; case 'R': f(r); break; case 'S': f(s); break; case 'N': f(n); break; case 'T': f(t); break; default: f(d); } }
};
static void pair(Map const & m, Ent const & x, Lib const & X, Ent const & y)
{
  Lib Y(m, y); Rel want = truth(x, y), g[2], ty;
  for (int o = 0; o < 2; ++o) {
    acme::entity const * a = o ? Y.p() : X.p(), * b = o ? X.p() : Y.p();
    g[o] = {acme::IsParallel(a, b), acme::IsOrthogonal(a, b), acme::IsCollinear(a, b), acme::IsCoplanar(a, b)};
  }
  X.visit([&](auto const & A) { Y.visit([&](auto const & B) { ty = {IsParallel2(A, B, 0), IsOrthogonal2(A, B, 0), collinear2(A, B, 0), IsCoplanar2(A, B, 0)}; }); });
  auto w = [&] { return str(x) + " and " + str(y) + " [" + m.name + "]"; };
  MC_OK(g[0].par == want.par && g[1].par == want.par && ty.par == want.par, "parallel", "%s: parallel is %d, generic %d, swapped %d, typed %d", w().c_str(), want.par, g[0].par, g[1].par, ty.par);
  MC_OK(g[0].ort == want.ort && g[1].ort == want.ort && ty.ort == want.ort, "orthogonal", "%s: orthogonal is %d, generic %d, swapped %d, typed %d", w().c_str(), want.ort, g[0].ort, g[1].ort, ty.ort);
  MC_OK(g[0].col == want.col && g[1].col == want.col && ty.col == want.col, "collinear", "%s: collinear is %d, generic %d, swapped %d, typed %d", w().c_str(), want.col, g[0].col, g[1].col, ty.col);
  MC_OK(g[0].cop == want.cop && g[1].cop == want.cop && ty.cop == want.cop, "coplanar", "%s: coplanar is %d, generic %d, swapped %d, typed %d", w().c_str(), want.cop, g[0].cop, g[1].cop, ty.cop);
  if (want.par || want.ort || want.col || want.cop) mc::nontrivial();
  mc::outcome(mc::mix(want.par + 2 * want.ort + 4 * want.col + 8 * want.cop, x.k * 256 + y.k));
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<Ent> menu;
  std::vector<P3> D = {{1,0,0}, {-2,0,0}, {0,-1,0}, {0,0,2}, {1,1,0}, {-1,1,0}, {1,0,-1}, {0,1,1}, {1,1,1}, {-2,-2,-2}, {2,-1,-1}, {2,1,0}, {-1,2,1}, {1,-2,2}, {1,-1,2}};
  if (th) D = dirs(2);
  for (auto const & d : D) { menu.push_back({'L', {0,0,0}, d, {}, 0}); menu.push_back({'R', {1,0,-1}, d, {}, 0}); menu.push_back({'S', {0,0,0}, d, {}, 0}); menu.push_back({'N', {0,0,0}, d, {}, 0}); }
  for (auto const & v : {triMenu(true), diskMenu(true)}) for (auto const & e : v) menu.push_back(e);
  auto SH = cube(-2, 2); if (th) SH = cube(-1, 1);
  for (size_t i = 0; i < menu.size(); ++i) for (size_t j = i; j < menu.size(); ++j) for (auto const & m : maps())
    mc::kase([&] { Lib X(m, menu[i]); for (auto const & d : SH) pair(m, menu[i], X, shift(menu[j], d)); },
      [&] { return str(menu[i]) + " against shifts of " + str(menu[j]) + " [" + m.name + "]"; });
  // vectors against everything
  for (auto const & v : dirs(2)) for (auto const & m : maps())
    mc::kase([&] {
      acme::vec3 V = av(vc(m, v));
      for (auto const & e : menu) {
        Lib X(m, e); bool l = linear(e); P3 u = l ? dir(e) : nrm(e); bool al = zero(cross(u, v)), pe = zero(dot(u, v)), par = false, ort = false;
        X.visit([&](auto const & A) { par = acme::IsParallel(V, A); ort = acme::IsOrthogonal(V, A); });
        MC_OK(par == (l ? al : pe), "vector-parallel", "vector %s and %s [%s]: parallel %d", str(v).c_str(), str(e).c_str(), m.name, par);
        MC_OK(ort == (l ? pe : al), "vector-orthogonal", "vector %s and %s [%s]: orthogonal %d", str(v).c_str(), str(e).c_str(), m.name, ort);
      }
      for (auto const & u : dirs(2)) {
        acme::vec3 U = av(vc(m, u)); bool al = zero(cross(u, v)), pe = zero(dot(u, v));
        MC_OK(acme::IsParallel(V, U) == al && acme::IsOrthogonal(V, U) == pe, "vector-vector", "vectors %s and %s [%s]: parallel %d orthogonal %d", str(v).c_str(), str(u).c_str(), m.name, acme::IsParallel(V, U), acme::IsOrthogonal(V, U));
      }
      mc::nontrivial();
    }, [&] { return "vector " + ::str(v) + " against all entities [" + m.name + "]"; });
  // points and balls have no direction: the generic forms say no
  for (auto const & e : menu) mc::kase([&] {
      Map const & m = maps()[0]; Lib X(m, e); acme::point p(0, 0, 0); acme::ball b(1, acme::point(0, 0, 0)); acme::none n;
      for (acme::entity const * q : {(acme::entity const *)&p, (acme::entity const *)&b, (acme::entity const *)&n})
        for (int o = 0; o < 2; ++o) { acme::entity const * s = o ? q : X.p(), * t = o ? X.p() : q;
          MC_OK(!acme::IsParallel(s, t) && !acme::IsOrthogonal(s, t) && !acme::IsCollinear(s, t) && !acme::IsCoplanar(s, t), "undirected", "%s against a point, ball or none holds a relation", str(e).c_str()); }
    }, [&] { return str(e) + " against a point, a ball and none"; });
  return mc::finish();
}
