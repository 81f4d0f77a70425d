// Comparison of the results of the generic intersection with the oracle's sets.
#ifndef ACMERES_HH
#define ACMERES_HH
#include "acmegeo.hh"
namespace geo {
inline Ent shift(Ent e, P3 d) { e.a = e.a + d; if (e.k == 'T' || e.k == 'S') e.b = e.b + d; if (e.k == 'T') e.c = e.c + d; return e; }
typedef std::unique_ptr<acme::entity> Res;
inline std::string str(acme::entity const * g)
{
  if (!g) return "null";
  if (auto p = dynamic_cast<acme::point const *>(g)) return "point" + ::str(p3(*p));
  if (auto p = dynamic_cast<acme::segment const *>(g)) return str(*p);
  if (auto p = dynamic_cast<acme::line const *>(g)) return "line " + ::str(p3(p->origin())) + " dir " + ::str(p3(p->direction()));
  if (auto p = dynamic_cast<acme::ray const *>(g)) return "ray " + ::str(p3(p->origin())) + " dir " + ::str(p3(p->direction()));
  if (auto p = dynamic_cast<acme::disk const *>(g)) return mc::fmt("disk r %g ", (double)p->radius()) + ::str(p3(p->center())) + " normal " + ::str(p3(p->normal()));
  return g->type();
}
inline bool par(P3 a, P3 b) { return finite(a) && norm(a) > 0 && norm(cross(unit(a), unit(b))) < 1e-6; }
// does the result describe exactly the set
inline bool same(Map const & m, acme::entity const * g, Sh const & s)
{
  if (!g) return false;
  switch (s.k) {
    case Sh::EMPTY: return g->isNone();
    case Sh::POINT: {
      if (auto p = dynamic_cast<acme::point const *>(g)) return at(m, p3(*p), s.p);
      if (auto p = dynamic_cast<acme::segment const *>(g)) return isPart(m, *p, s);
      if (auto p = dynamic_cast<acme::disk const *>(g)) return at(m, p3(p->center()), s.p) && std::abs(p->radius()) <= 1e-3 * m.s;
      return false; }
    case Sh::LINEAR: {
      bool i0 = std::isinf(s.lo), i1 = std::isinf(s.hi);
      if (i0 && i1) { auto p = dynamic_cast<acme::line const *>(g); return p && isDirected(m, *p, s, false); }
      if (i0 || i1) { auto p = dynamic_cast<acme::ray const *>(g); return p && isDirected(m, *p, s, true); }
      auto p = dynamic_cast<acme::segment const *>(g); return p && isPart(m, *p, s); }
    case Sh::REGION: {
      Ent const & e = s.e;
      if (e.k == 'T') { auto p = dynamic_cast<acme::triangle const *>(g); if (!p) return false; P3 v[3] = {e.a, e.b, e.c};
        for (int i = 0; i < 3; ++i) { bool f = false; for (int j = 0; j < 3; ++j) f = f || at(m, p3(p->vertex(j)), v[i]); if (!f) return false; } return true; }
      if (e.k == 'D') { auto p = dynamic_cast<acme::disk const *>(g); return p && at(m, p3(p->center()), e.a) && std::abs(p->radius() - e.r * m.s) <= tol(m) && par(p3(p->normal()), mul(m.R, e.b)); }
      auto p = dynamic_cast<acme::plane const *>(g); return p && par(p3(p->normal()), mul(m.R, e.b)) && std::abs(dot(p3(p->origin()) - pt(m, e.a), mul(m.R, unit(e.b)))) <= tol(m); }
    default: return true;
  }
}
inline bool decided(Ent const & x, Ent const & y, Sh const & s)
{
  if (s.k != Sh::POINT) return true;
  if (x.k == 'P' || y.k == 'P') return !((x.k == 'D' && border(x, s.p)) || (y.k == 'D' && border(y, s.p)));
  if (x.k == 'B' || y.k == 'B') return false;
  if (flat(x) && flat(y)) return false;
  if (linear(x) && linear(y)) return !zero(cross(dir(x), dir(y)));
  Ent const & l = linear(x) ? x : y, & f = linear(x) ? y : x;
  if (zero(dot(dir(l), nrm(f)))) return false;
  return !(f.k == 'D' && border(f, s.p));
}
inline bool supported(Ent const & x, Ent const & y)
{ // the common set of these kinds is no entity in general, or the library declares them unsupported
  auto is = [&](char a, char b) { return (x.k == a && y.k == b) || (x.k == b && y.k == a); };
  return !is('P', 'B') && !is('B', 'B') && !is('T', 'B') && !is('D', 'B');
}
}
#endif
