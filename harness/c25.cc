// C25: generic intersection of two entities, both argument orders.
#include "acmeres.hh"
using namespace geo;
static void one(Map const & m, Ent const & x, acme::entity const * X, Ent const & y, acme::entity const * Y)
{
  Sh s = meet(x, y);
  if (s.k == Sh::OTHER) {
    if (x.k == 'N' && y.k == 'N') { s.k = Sh::REGION; s.e = x; } else return;
  }
  for (int o = 0; o < 2; ++o) {
    Res g; std::string err;
    fillStack(o ? 1 : 0);
    try { g.reset(o ? acme::Intersection(Y, X) : acme::Intersection(X, Y)); } catch (std::exception const & e) { err = e.what(); }
    auto w = [&] { return "generic (" + (o ? str(y) + ", " + str(x) : str(x) + ", " + str(y)) + ") [" + m.name + "], common set " + str(s); };
    MC_OK(err.empty(), "throws", "%s: throws %s", w().c_str(), err.c_str());
    if (!err.empty()) continue;
    bool ok = same(m, g.get(), s) || (!decided(x, y, s) && g && g->isNone());
    MC_OK(ok, "result", "%s: gives %s", w().c_str(), str(g.get()).c_str());
    mc::outcome(mc::mix(g ? g->level() : 77, x.k * 256 + y.k));
  }
  if (s.k) mc::nontrivial();
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<Ent> menu;
  menu.push_back({'P', {0, 0, 0}, {}, {}, 0}); menu.push_back({'P', {0.5, 1, 0}, {}, {}, 0});
  std::vector<P3> D = {{1,0,0}, {0,-1,0}, {0,0,2}, {1,1,0}, {-1,0,1}, {1,1,1}, {2,1,0}, {-1,2,1}, {1,-2,2}};
  if (th) for (auto const & d : dirs(1)) D.push_back(d);
  for (auto const & d : D) { menu.push_back({'L', {0,0,0}, d, {}, 0}); menu.push_back({'R', {0,0,0}, d, {}, 0}); menu.push_back({'R', {0,0,0}, -1 * d, {}, 0}); menu.push_back({'S', {0,0,0}, d, {}, 0}); menu.push_back({'S', d, -2 * d, {}, 0}); }
  for (auto const & v : {planeMenu(th), triMenu(true), diskMenu(true), ballMenu(true)}) for (auto const & e : v) menu.push_back(e);
  auto SH = cube(-2, 2); if (th) SH = cube(-3, 3);
  for (size_t i = 0; i < menu.size(); ++i) for (size_t j = i; j < menu.size(); ++j) if (supported(menu[i], menu[j]))
    for (auto const & m : maps())
      mc::kase([&] {
        auto X = mkE(m, menu[i]);
        for (auto const & d : SH) { Ent y = shift(menu[j], d); one(m, menu[i], X.get(), y, mkE(m, y).get()); }
      }, [&] { return str(menu[i]) + " against shifts of " + str(menu[j]) + " [" + m.name + "]"; });
  return mc::finish();
}
