// C22: line-like against surface intersections.
#include "acmegeo.hh"
using namespace geo;
template <class X, class F> static void call(char const * fn, Map const & m, Ent const & l, Ent const & f, Sh const & s, X const & x, F const & y)
{
  auto w = [&] { return std::string(fn) + "(" + str(l) + ", " + str(f) + ") [" + m.name + "], common set " + str(s); };
  P3 D = dir(l), n = nrm(f); bool par = zero(dot(D, n)), in = par && zero(dot(l.a - f.a, n));
  // single common point: decided away from the rim of disks (no tolerance there)
  if (!in) {
    bool rim = s.k == Sh::POINT && f.k == 'D' && border(f, s.p);
    acme::point p(7, 7, 7); bool r = acme::Intersection(x, y, p);
    if (!rim) MC_OK(r == (s.k == Sh::POINT), "point-decision", "%s: reports %d", w().c_str(), r);
    if (r && s.k == Sh::POINT) MC_OK(at(m, p3(p), s.p), "point-place", "%s: point %s, expected %s", w().c_str(), str(p3(p)).c_str(), str(pt(m, s.p)).c_str());
    if (s.k == Sh::POINT) mc::nontrivial();
    mc::outcome(mc::mix(r + 2 * par, l.k * 256 + f.k));
  }
}
template <class X, class F> static void callSeg(char const * fn, Map const & m, Ent const & l, Ent const & f, Sh const & s, X const & x, F const & y)
{
  P3 D = dir(l), n = nrm(f); bool in = zero(dot(D, n)) && zero(dot(l.a - f.a, n));
  if (!in) return;
  auto w = [&] { return std::string(fn) + "(" + str(l) + ", " + str(f) + ") in plane [" + m.name + "], common set " + str(s); };
  acme::segment g(acme::point(7, 7, 7), acme::point(8, 8, 8)); bool r = acme::Intersection(x, y, g);
  if (s.k == Sh::EMPTY) MC_OK(!r, "segment-decision", "%s: reports %s", w().c_str(), str(g).c_str());
  if (s.k == Sh::LINEAR) { MC_OK(r, "segment-decision", "%s: reports nothing", w().c_str()); if (r) MC_OK(isPart(m, g, s), "segment-place", "%s: gives %s", w().c_str(), str(g).c_str()); mc::nontrivial(); }
  if (s.k == Sh::POINT && r) MC_OK(isPart(m, g, s), "segment-place", "%s: gives %s", w().c_str(), str(g).c_str());
  mc::outcome(mc::mix(r + 4 * s.k, l.k * 256 + f.k));
}
// lines and rays and segments in a plane come back whole
template <class X> static void callWhole(Map const & m, Ent const & l, Ent const & f, X const & x, acme::plane const & y)
{
  P3 D = dir(l), n = nrm(f); bool in = zero(dot(D, n)) && zero(dot(l.a - f.a, n));
  X g = x; bool r = acme::Intersection(x, y, g);
  MC_OK(r == in, "whole-decision", "%s and %s [%s]: lying in the plane reported %d", str(l).c_str(), str(f).c_str(), m.name, r);
  if (in && r) MC_OK(g.isApprox(x), "whole-place", "%s and %s [%s]: result is not the input", str(l).c_str(), str(f).c_str(), m.name);
}
static bool swapArgs(acme::segment const & x, acme::plane const & y, acme::segment & g) { return acme::Intersection(y, x, g); }
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<Ent> surf;
  for (auto const & v : {triMenu(true), diskMenu(true), planeMenu(true)}) for (auto const & e : v) surf.push_back(e);
  auto O = cube(-2, 3); auto DD = dirs(2);
  if (th) { O = cube(-3, 4); DD = dirs(3); }
  for (auto const & f : surf) for (auto const & m : maps()) for (auto const & o : O)
    mc::kase([&] {
      acme::triangle t; acme::disk d; acme::plane n;
      if (f.k == 'T') t = mkT(m, f); else if (f.k == 'D') d = mkD(m, f); else n = mkN(m, f);
      for (auto const & v : DD) {
        Ent l = {'L', o, v, {}, 0}, r = {'R', o, v, {}, 0}, s = {'S', o, o + v, {}, 0};
        acme::line L = mkL(m, l); acme::ray R = mkR(m, r); acme::segment S = mkS(m, s);
        Sh sl = meet(l, f), sr = meet(r, f), ss = meet(s, f);
        if (f.k == 'T') { call("line/triangle", m, l, f, sl, L, t); call("ray/triangle", m, r, f, sr, R, t); call("segment/triangle", m, s, f, ss, S, t);
          callSeg("line/triangle", m, l, f, sl, L, t); callSeg("ray/triangle", m, r, f, sr, R, t); callSeg("segment/triangle", m, s, f, ss, S, t); }
        else if (f.k == 'D') { call("line/disk", m, l, f, sl, L, d); call("ray/disk", m, r, f, sr, R, d); call("segment/disk", m, s, f, ss, S, d);
          callSeg("line/disk", m, l, f, sl, L, d); callSeg("ray/disk", m, r, f, sr, R, d); callSeg("segment/disk", m, s, f, ss, S, d); }
        else { call("line/plane", m, l, f, sl, L, n); call("ray/plane", m, r, f, sr, R, n);
          { P3 n3 = nrm(f); bool in = zero(dot(dir(s), n3)) && zero(dot(s.a - f.a, n3));
            if (!in) { acme::point p(7, 7, 7); bool q = acme::Intersection(n, S, p); MC_OK(q == (ss.k == Sh::POINT), "point-decision", "plane/segment(%s, %s) [%s], common set %s: reports %d", str(f).c_str(), str(s).c_str(), m.name, str(ss).c_str(), q);
              if (q && ss.k == Sh::POINT) MC_OK(at(m, p3(p), ss.p), "point-place", "plane/segment(%s, %s) [%s]: point %s", str(f).c_str(), str(s).c_str(), m.name, str(p3(p)).c_str()); }
            acme::segment g = S; bool q = swapArgs(S, n, g); MC_OK(q == in, "whole-decision", "%s and %s [%s]: lying in the plane reported %d", str(s).c_str(), str(f).c_str(), m.name, q); }
          callWhole(m, l, f, L, n); callWhole(m, r, f, R, n); }
      }
    }, [&] { return str(f) + " [" + m.name + "] against all lines, rays and segments from " + ::str(o); });
  return mc::finish();
}
