// C28: sequences of translations, rotations, rigid transforms and reversals of the acme entities.
#include "acmeres.hh"
using namespace geo;
struct Op { int kind; P3 v; double a; Pose p; char const * name; }; // kind 0 translate v, 1 rotate a about v, 2 transform p, 3.. reversal
static std::vector<Op> ops;
static const double Q = MPI / 2;
static void makeOps()
{
  ops = { {0, {1,0,-2}, 0, {}, "translate(1,0,-2)"}, {0, {-0.3,0.7,5.2}, 0, {}, "translate(-.3,.7,5.2)"},
    {1, {0,0,1}, Q, {}, "rotate(90deg,Z)"}, {1, {1,0,0}, 0.7, {}, "rotate(.7,X)"}, {1, {0,1,0}, -2.1, {}, "rotate(-2.1,Y)"}, {1, {1/3.0,2/3.0,-2/3.0}, 1.3, {}, "rotate(1.3,(1,2,-2)/3)"}, {1, {0,3,4}, 2, {}, "rotate(2,(0,3,4))"},
    {2, {}, 0, {0.5,-1,2,0.4,-0.3,1.1}, "transform A"}, {2, {}, 0, {-3,0,0.25,2.8,0.6,-0.2}, "transform B"},
    {3, {}, 0, {}, "reverse"}, {4, {}, 0, {}, "swap 12"}, {5, {}, 0, {}, "swap 20"} };
}
static M3 axisRot(P3 axis, double a)
{ // Rodrigues, columns
  P3 u = unit(axis); double c = std::cos(a), s = std::sin(a); M3 r;
  for (int k = 0; k < 3; ++k) { P3 e = {0,0,0}; e[k] = 1; r[k] = c * e + (s * cross(u, e) + ((1 - c) * dot(u, e)) * u); }
  return r;
}
// expected state: the lattice entity under a similarity and its reversals
struct Ref { Ent e; M3 R; P3 o; bool flip; };
static P3 at3(Ref const & r, P3 const & p) { return r.o + mul(r.R, p); }
static void motion(Op const & op, bool inv, M3 & R, P3 & t)
{
  M3 I = {P3{1,0,0}, P3{0,1,0}, P3{0,0,1}}; R = I; t = {0,0,0};
  if (op.kind == 0) t = (inv ? -1.0 : 1.0) * op.v;
  else if (op.kind == 1) R = axisRot(op.v, inv ? -op.a : op.a);
  else { R = rot(op.p); t = {op.p.x, op.p.y, op.p.z};
    if (inv) { M3 T; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) T[i][j] = R[j][i]; t = -1.0 * mul(T, t); R = T; } }
}
static Ref moved(Ref r, Op const & op)
{
  if (op.kind < 3) { M3 R, S; P3 t; motion(op, false, R, t); for (int k = 0; k < 3; ++k) S[k] = mul(R, r.R[k]); r.R = S; r.o = mul(R, r.o) + t; return r; }
  Ent & e = r.e;
  if (e.k == 'T') { if (op.kind == 3) std::swap(e.a, e.b); else if (op.kind == 4) std::swap(e.b, e.c); else std::swap(e.c, e.a); }
  else if (e.k == 'S') std::swap(e.a, e.b);
  else e.b = -1.0 * e.b;
  return r;
}
static bool has(Ent const & e, Op const & op)
{
  if (op.kind < 3) return true;
  if (e.k == 'P' || e.k == 'B') return false;
  return op.kind == 3 || e.k == 'T';
}
static void apply(char k, acme::entity & E, Op const & op, bool inv)
{
  if (op.kind == 0) { E.translate(av((inv ? -1.0 : 1.0) * op.v)); return; }
  if (op.kind == 1) { E.rotate(inv ? -op.a : op.a, av(op.v)); return; }
  if (op.kind == 2) { M3 R; P3 t; motion(op, inv, R, t); E.transform(aff(R, t)); return; }
  switch (k) {
    case 'L': static_cast<acme::line &>(E).reverse(); break; case 'R': static_cast<acme::ray &>(E).reverse(); break;
    case 'N': static_cast<acme::plane &>(E).reverse(); break; case 'D': static_cast<acme::disk &>(E).reverse(); break;
    case 'S': static_cast<acme::segment &>(E).swap(); break;
    case 'T': { acme::triangle & t = static_cast<acme::triangle &>(E); if (op.kind == 3) t.swap(0, 1); else if (op.kind == 4) t.swap(1, 2); else t.swap(2, 0); }
  }
}
typedef std::shared_ptr<acme::entity> Ptr;
static Ptr clone(char k, acme::entity const & E)
{
  switch (k) {
    case 'P': return std::make_shared<acme::point>(static_cast<acme::point const &>(E)); case 'L': return std::make_shared<acme::line>(static_cast<acme::line const &>(E));
    case 'R': return std::make_shared<acme::ray>(static_cast<acme::ray const &>(E)); case 'S': return std::make_shared<acme::segment>(static_cast<acme::segment const &>(E));
    case 'N': return std::make_shared<acme::plane>(static_cast<acme::plane const &>(E)); case 'T': return std::make_shared<acme::triangle>(static_cast<acme::triangle const &>(E));
    case 'D': return std::make_shared<acme::disk>(static_cast<acme::disk const &>(E)); default: return std::make_shared<acme::ball>(static_cast<acme::ball const &>(E));
  }
}
static std::string path(std::vector<int> const & h) { std::string s; for (int i : h) s += (s.empty() ? "" : ", ") + std::string(ops[i].name); return s; }
static bool nr(acme::vec3 const & g, P3 const & w) { P3 q = {g[0], g[1], g[2]}; return finite(q) && norm(q - w) < 1e-9 * (1 + norm(w)); }
static bool is(Ref const & r, acme::entity const & E)
{
  Ent const & e = r.e; P3 a = at3(r, e.a);
  auto d = [&] { return mul(r.R, e.b); };
  switch (e.k) {
    case 'P': return nr(static_cast<acme::point const &>(E), a);
    case 'L': { auto & l = static_cast<acme::line const &>(E); return nr(l.origin(), a) && nr(l.direction(), d()); }
    case 'R': { auto & l = static_cast<acme::ray const &>(E); return nr(l.origin(), a) && nr(l.direction(), d()); }
    case 'S': { auto & s = static_cast<acme::segment const &>(E); return nr(s[0], a) && nr(s[1], at3(r, e.b)) && std::abs(s.length() - norm(e.b - e.a)) < 1e-9 && nr(s.centroid(), at3(r, 0.5 * (e.a + e.b))); }
    case 'N': { auto & n = static_cast<acme::plane const &>(E); return nr(n.origin(), a) && nr(n.normal(), d()) && nr(n.unitNormal(), unit(d())); }
    case 'T': { auto & t = static_cast<acme::triangle const &>(E); return nr(t[0], a) && nr(t[1], at3(r, e.b)) && nr(t[2], at3(r, e.c)) && nr(t.normal(), mul(r.R, unit(nrm(e)))) && std::abs(t.area() - 0.5 * norm(nrm(e))) < 1e-9; }
    case 'D': { auto & n = static_cast<acme::disk const &>(E); return nr(n.center(), a) && nr(n.normal(), d()) && n.radius() == e.r && nr(n.layingPlane().origin(), a); }
    default: { auto & b = static_cast<acme::ball const &>(E); return nr(b.center(), a) && b.radius() == e.r; }
  }
}
static bool isIn(char k, acme::entity const & E, acme::point const & p)
{
  switch (k) {
    case 'L': return static_cast<acme::line const &>(E).isInside(p); case 'R': return static_cast<acme::ray const &>(E).isInside(p); case 'S': return static_cast<acme::segment const &>(E).isInside(p);
    case 'N': return static_cast<acme::plane const &>(E).isInside(p); case 'T': return static_cast<acme::triangle const &>(E).isInside(p); case 'D': return static_cast<acme::disk const &>(E).isInside(p);
    default: return static_cast<acme::ball const &>(E).isInside(p);
  }
}
static std::vector<P3> probes;
static bool probed(Ref const & r, acme::entity const & E)
{
  if (r.e.k == 'P') return true;
  for (auto const & p : probes) {
    if ((r.e.k == 'D' || r.e.k == 'B') && std::abs(norm(p - r.e.a) - r.e.r) < 1e-6) continue;
    if ((r.e.k == 'L' || r.e.k == 'R') && zero(p - r.e.a)) continue;
    if (isIn(r.e.k, E, ap(at3(r, p))) != contains(r.e, p)) return false;
  }
  return true;
}
static uint64_t hash(Ref const & r)
{
  uint64_t h = r.e.k; auto q = [&](double v) { h = mc::mix(h, (uint64_t)(long long)std::llround(v * 1e6)); };
  for (auto const & p : {r.o, r.e.a, r.e.b, r.e.c}) for (double v : p) q(v); for (auto const & p : r.R) for (double v : p) q(v); q(r.e.r); return h;
}
static void walk(Ref const & r, acme::entity const & E, std::vector<int> & h, int depth)
{
  MC_OK(is(r, E), "moved", "%s after %s is not the moved entity", str(r.e).c_str(), path(h).c_str());
  MC_OK(probed(r, E), "containment", "%s after %s contains other points", str(r.e).c_str(), path(h).c_str());
  MC_OK(!E.isDegenerated(), "degenerated", "%s after %s is degenerated", str(r.e).c_str(), path(h).c_str());
  mc::nontrivial(); mc::state(hash(r)); 
  if (!depth) { mc::trace(); return; }
  for (int i = 0; i < (int)ops.size(); ++i) if (has(r.e, ops[i])) {
    Ptr N = clone(r.e.k, E); Ref q = moved(r, ops[i]); h.push_back(i);
    apply(r.e.k, *N, ops[i], false); mc::transition(); walk(q, *N, h, depth - 1);
    apply(r.e.k, *N, ops[i], true); MC_OK(is(r, *N), "inverse", "%s after %s and its inverse is not restored", str(r.e).c_str(), path(h).c_str());
    h.pop_back();
  }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  makeOps();
  for (auto const & p : cube(-1, 2)) if ((int(p[0]) * 3 + int(p[1]) * 5 + int(p[2]) * 7 + 60) % 3 == 0) probes.push_back(p);
  for (auto const & p : std::vector<P3>{{0.5,0.5,0}, {0.25,0,0}, {0,0.5,0.5}, {-0.5,0,0}, {0.5,0.5,0.5}}) probes.push_back(p);
  std::vector<Ent> menu;
  menu.push_back({'P', {0,0,0}, {}, {}, 0}); menu.push_back({'P', {1,-2,0.5}, {}, {}, 0});
  std::vector<P3> D = {{1,0,0}, {0,0,-2}, {1,1,1}, {2,-1,0}, {-1,2,2}};
  for (auto const & d : D) { menu.push_back({'L', {0,0,0}, d, {}, 0}); menu.push_back({'R', {0,1,0}, d, {}, 0}); menu.push_back({'S', {0,0,1}, P3{0,0,1} + d, {}, 0}); menu.push_back({'N', {0,1,0}, d, {}, 0}); menu.push_back({'D', {1,0,0}, d, {}, 1.3}); }
  auto T = triMenu(false); for (int i = 0; i < (th ? 14 : 5); ++i) menu.push_back(T[i]);
  menu.push_back({'B', {0,0,0}, {}, {}, 1.2}); menu.push_back({'B', {1,2,-1}, {}, {}, 2.3});
  int depth = th ? 5 : 4;
  M3 I = {P3{1,0,0}, P3{0,1,0}, P3{0,0,1}};
  for (auto const & e : menu) for (int i = 0; i < (int)ops.size(); ++i) if (has(e, ops[i]))
    mc::kase([&] {
      Ptr E = mkE(maps()[0], e); Ref r = {e, I, {0,0,0}, false}; MC_OK(is(r, *E), "fresh", "%s is another entity", str(e).c_str());
      Ref q = moved(r, ops[i]); std::vector<int> h = {i}; apply(e.k, *E, ops[i], false); walk(q, *E, h, depth - 1);
      mc::outcome(mc::mix(e.k, i));
    }, [&] { return str(e) + ": " + ops[i].name + " and every continuation"; });
  // small, zero and large motions repeated many times, also of degenerate entities
  { auto deg = menu;
    deg.push_back({'T', {0,0,0}, {1,0,0}, {0,0,0}, 0}); deg.push_back({'T', {0,0,0}, {0,0,0}, {0,2,1}, 0}); deg.push_back({'T', {1,0,0}, {0,2,1}, {0,2,1}, 0}); deg.push_back({'T', {1,1,1}, {1,1,1}, {1,1,1}, 0});
    deg.push_back({'S', {1,0,2}, {1,0,2}, {}, 0}); deg.push_back({'D', {1,0,0}, {0,0,1}, {}, 0}); deg.push_back({'B', {1,2,-1}, {}, {}, 0}); deg.push_back({'L', {1,0,0}, {0,0,0}, {}, 0}); deg.push_back({'R', {1,0,0}, {0,0,0}, {}, 0}); deg.push_back({'N', {1,0,0}, {0,0,0}, {}, 0});
    auto corners = [](Ref const & r, acme::entity const & E) {
      Ent const & e = r.e; P3 a = at3(r, e.a), d = mul(r.R, e.b);
      switch (e.k) {
        case 'S': { auto & x = static_cast<acme::segment const &>(E); return nr(x[0], a) && nr(x[1], at3(r, e.b)); }
        case 'T': { auto & x = static_cast<acme::triangle const &>(E); return nr(x[0], a) && nr(x[1], at3(r, e.b)) && nr(x[2], at3(r, e.c)); }
        case 'N': { auto & n = static_cast<acme::plane const &>(E); return nr(n.origin(), a) && nr(n.normal(), d); }
        default: return is(r, E);
      } };
    for (size_t i = 0; i < deg.size(); ++i) for (int mag = -8; mag <= 6; ++mag)
      mc::kase([&] {
        Ent const & e = deg[i]; double z = std::pow(10.0, mag); int dir = 0;
        std::vector<Op> small;
        for (auto const & d : std::vector<P3>{{1,0,0}, {0,-1,0}, {0,0,1}, {0.6,-0.7,0.3}}) {
          small.push_back({0, z * d, 0, {}, "small translation"});
          if (mag <= 1) { small.push_back({1, d, z, {}, "small rotation"}); small.push_back({1, z * d, 0.3, {}, "rotation about a short or long axis"}); small.push_back({2, {}, 0, {z * d[0], z * d[1], z * d[2], dir == 0 ? z : 0, dir == 1 ? z : 0, dir >= 2 ? z : 0}, "small transformation"}); }
          ++dir;
        }
        small.push_back({0, {0,0,0}, 0, {}, "no translation"}); small.push_back({1, {0,0,1}, 0, {}, "no rotation"}); small.push_back({2, {}, 0, {0,0,0,0,0,0}, "identity"});
        for (auto const & a : small) for (auto const & b : small) {
          Ptr E = mkE(maps()[0], e); bool was = E->isDegenerated(); Ref r = {e, I, {0,0,0}, false};
          for (int k = 0; k < 25; ++k) { Op const & o = k % 5 == 4 ? b : a; apply(e.k, *E, o, false); r = moved(r, o); mc::transition(); }
          bool deg0 = zero(e.b) && (e.k == 'L' || e.k == 'R' || e.k == 'N');
          MC_OK(corners(r, *E), "many-moves", "%s after 25 times %s (every fifth: %s) of size 1e%d is not the moved entity", str(e).c_str(), a.name, b.name, mag);
          if (!deg0 && mag <= 3) MC_OK(E->isDegenerated() == was, "many-degenerated", "%s after 25 times %s of size 1e%d: degenerate %d, was %d", str(e).c_str(), a.name, mag, !was, was);
          mc::state(hash(r)); mc::trace();
        }
        mc::nontrivial(); mc::outcome(mc::mix(e.k, mag + 20));
      }, [&] { return mc::fmt("%s under repeated motions of size 1e%d", str(deg[i]).c_str(), mag); });
  }
  // the intersection of moved entities is the moved intersection
  std::vector<P3> SH = {{0,0,0}, {1,0,0}, {0,-1,0}, {0,0,1}, {1,1,1}};
  auto more = menu; for (auto const & e : planeMenu(true)) more.push_back(e); for (auto const & e : triMenu(false)) more.push_back(e); for (auto const & e : ballMenu(true)) more.push_back(e);
  for (size_t i = 0; i < more.size(); ++i) for (size_t j = i; j < more.size(); ++j) if (supported(more[i], more[j]))
    mc::kase([&] {
      for (int a = 0; a < (int)ops.size(); ++a) for (int b = 0; b < (int)ops.size(); ++b) if (ops[a].kind < 3 && ops[b].kind < 3)
        for (auto const & d : SH) {
          Ent y = shift(more[j], d); Sh s = meet(more[i], y); if (s.k == Sh::OTHER || !decided(more[i], y, s)) continue;
          Ptr X = mkE(maps()[0], more[i]), Y = mkE(maps()[0], y);
          for (int o : {a, b}) { apply(more[i].k, *X, ops[o], false); apply(y.k, *Y, ops[o], false); }
          Ref r = moved(moved(Ref{more[i], I, {0,0,0}, false}, ops[a]), ops[b]); Map m = {r.R, 1, 1, r.o, "moved"};
          std::string err; Res g; try { g.reset(acme::Intersection(X.get(), Y.get())); } catch (std::exception const & x) { err = x.what(); }
          MC_OK(err.empty() && same(m, g.get(), s), "moved-intersection", "%s and %s after %s, %s: %s instead of moved %s", str(more[i]).c_str(), str(y).c_str(), ops[a].name, ops[b].name, err.empty() ? str(g.get()).c_str() : err.c_str(), str(s).c_str());
          if (s.k) mc::nontrivial();
        }
    }, [&] { return str(more[i]) + " and shifts of " + str(more[j]) + " moved twice"; });
  return mc::finish();
}
