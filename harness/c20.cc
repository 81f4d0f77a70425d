// C20: box trees find every overlapping pair.
#include "acmegeo.hh"
#include <map>
using acme::aabb; using acme::AABBtree;
typedef aabb::vecptr Set;
struct B { double lo[3], hi[3]; };
static bool meet(aabb const & a, aabb const & b)
{ for (int i = 0; i < 3; ++i) if (a.max(i) < b.min(i) || b.max(i) < a.min(i)) return false; return true; }
typedef std::vector<std::pair<aabb const *, aabb const *>> Pairs;
static Pairs brute(Set const & a, Set const & b)
{ Pairs p; for (auto const & x : a) for (auto const & y : b) if (meet(*x, *y)) p.push_back({x.get(), y.get()}); std::sort(p.begin(), p.end()); return p; }
static Pairs tree(AABBtree const & a, AABBtree const & b, bool swap = false)
{ aabb::vecpairptr l; a.intersection(b, l, swap); Pairs p; for (auto const & x : l) p.push_back({x.first.get(), x.second.get()}); std::sort(p.begin(), p.end()); return p; }
static std::string str(aabb const & b) { return mc::fmt("[%g,%g]x[%g,%g]x[%g,%g]", b.min(0), b.max(0), b.min(1), b.max(1), b.min(2), b.max(2)); }
static std::string str(Set const & s) { std::string o = "{"; for (size_t i = 0; i < s.size() && i < 8; ++i) o += (i ? " " : "") + str(*s[i]); return o + (s.size() > 8 ? mc::fmt(" ... %zu}", s.size()) : "}"); }
static void compare(Set const & A, Set const & B, AABBtree const & ta, AABBtree const & tb, std::string const & w)
{
  Pairs want = brute(A, B), got = tree(ta, tb);
  auto why = [&](Pairs const & g) { return mc::fmt("%s: %zu pairs listed, %zu overlap: %s against %s", w.c_str(), g.size(), want.size(), str(A).c_str(), str(B).c_str()); };
  MC_OK(got == want, "pairs", "%s", why(got).c_str());
  Pairs rev = tree(ta, tb, true); for (auto & x : rev) std::swap(x.first, x.second); std::sort(rev.begin(), rev.end());
  MC_OK(rev == want, "pairs-swapped", "%s", why(rev).c_str());
  MC_OK(ta.isEmpty() == A.empty() && tb.isEmpty() == B.empty(), "empty", "%s: isEmpty is wrong", w.c_str());
  mc::outcome(mc::mix(want.size(), mc::mix(A.size(), B.size())));
  if (!want.empty()) mc::nontrivial();
}
static void collide(Set const & A, Set const & B, AABBtree const & ta, AABBtree const & tb)
{
  Pairs want = brute(A, B), seen; 
  for (size_t acc = 0; acc <= want.size(); ++acc) { // the callback accepts only pair number acc (none at the end)
    seen.clear(); bool bad = false;
    bool r = ta.collision(tb, [&](aabb::ptr const & x, aabb::ptr const & y) {
      std::pair<aabb const *, aabb const *> p(x.get(), y.get()); seen.push_back(p);
      if (!std::binary_search(want.begin(), want.end(), p)) bad = true;
      return acc < want.size() && p == want[acc]; });
    MC_OK(!bad, "collision-callback", "the collision callback was given a pair that does not overlap or in the wrong order: %s against %s", str(A).c_str(), str(B).c_str());
    MC_OK(r == (acc < want.size()), "collision", "collision reports %d, expected %d: %s against %s", r, acc < want.size(), str(A).c_str(), str(B).c_str());
    if (acc == want.size()) { std::sort(seen.begin(), seen.end()); MC_OK(seen == want, "collision-callback", "a refusing callback saw %zu of %zu overlapping pairs: %s against %s", seen.size(), want.size(), str(A).c_str(), str(B).c_str()); }
  }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  auto box = [](double a, double b, double c, double d, double e, double f) { static int id = 0; return std::make_shared<aabb const>(a, b, c, d, e, f, ++id); };
  std::vector<aabb::ptr> menu = {
    box(0, 0, 0, 1, 1, 1), box(0.5, 0.5, 0.5, 2, 2, 2), box(1, 0, 0, 2, 1, 1), box(2.5, 0, 0, 3, 1, 1), box(0, 3, 0, 1, 4, 1), box(0, 0, 1, 1, 1, 1),
    box(0.5, 0.5, 0.5, 0.5, 0.5, 0.5), box(-5, -5, -5, 9, 9, 9), box(0, 0, 4, 1, 1, 5), box(0.2, -4, 0.2, 0.4, 6, 0.4), box(0, 0, 0, 1, 1, 1), box(-3, 0, 0, -2, 0, 1)};
  if (th) for (auto const & b : std::vector<aabb::ptr>{box(0, 0, 4.5, 1, 1, 9), box(1, 1, 1, 1, 1, 4), box(0, 0.9, -1, 0.1, 3.1, 0.1)}) menu.push_back(b);
  // (1) all pairs of box sequences up to length 3
  std::vector<Set> seqs; seqs.push_back({});
  for (size_t from = 0, len = 1; len <= 3; ++len) { size_t n = seqs.size(); for (size_t i = from; i < n; ++i) if (seqs[i].size() == len - 1) for (auto const & b : menu) { auto s = seqs[i]; s.push_back(b); seqs.push_back(s); } from = 0; }
  std::vector<std::shared_ptr<AABBtree>> trees; for (auto const & s : seqs) { trees.push_back(std::make_shared<AABBtree>()); trees.back()->build(s); }
  for (size_t i = 0; i < seqs.size(); ++i)
    mc::kase([&] { for (size_t j = 0; j < seqs.size(); ++j) compare(seqs[i], seqs[j], *trees[i], *trees[j], "small sets"); if (seqs[i].size() <= 2) for (size_t j = 0; j < seqs.size(); ++j) if (seqs[j].size() <= 2) collide(seqs[i], seqs[j], *trees[i], *trees[j]); },
      [&] { return "set " + str(seqs[i]) + " against every set of up to 3 boxes"; });
  // (2) structured large sets
  std::vector<std::pair<std::string, Set>> big;
  for (int n : std::vector<int>{0, 1, 2, 3, 5, 8, 13, 16, 31, 64, th ? 300 : 100}) {
    auto add = [&](char const * nm, std::function<aabb::ptr(int)> f) { Set s; for (int i = 0; i < n; ++i) s.push_back(f(i)); big.push_back({mc::fmt("%s%d", nm, n), s}); };
    auto same = box(0, 0, 0, 1, 1, 1);
    add("identical", [&](int) { return box(0, 0, 0, 1, 1, 1); });
    add("repeated", [&](int) { return same; });
    for (int ax = 0; ax < 3; ++ax) add(ax == 0 ? "rowx" : ax == 1 ? "rowy" : "rowz", [&](int i) { double o[3] = {0, 0, 0}; o[ax] = i * 0.8; return box(o[0], o[1], o[2], o[0] + 1, o[1] + 1, o[2] + 1); });
    add("diagonal", [&](int i) { double o = i * 0.7 - 3; return box(o, o, o, o + 0.6, o + 0.8, o + 1); });
    add("antidiagonal", [&](int i) { double o = i * 0.5; return box(o, -o, 0, o + 1, -o + 1, 0); });
    add("doubling", [&](int i) { double o = std::ldexp(1.0, i % 60) - 1; return box(o, 0, 0, o + 1, 1, 1); });
    add("nested", [&](int i) { return box(-i, -i, -i, i, i, i); });
    add("sheet", [&](int i) { return box(i % 6, i / 6, 0, i % 6 + 1, i / 6 + 1, 0); });
    add("points", [&](int i) { double a = (i * 7) % 10, b = (i * 3) % 4, c = i % 3; return box(a, b, c, a, b, c); });
    add("tower", [&](int i) { return box(0, 0, i * 1.25 - 4, 1, 1, i * 1.25 - 3); });
    add("mixed", [&](int i) { double s = i % 7 ? 0.3 : 6; return box(i % 9 * 0.5, i % 5 * 0.9, i % 4, i % 9 * 0.5 + s, i % 5 * 0.9 + s, i % 4 + s * 0.5); });
  }
  for (size_t i = 0; i < big.size(); ++i)
    mc::kase([&] {
      AABBtree ta; ta.build(big[i].second);
      for (auto const & o : big) { AABBtree tb; tb.build(o.second); compare(big[i].second, o.second, ta, tb, big[i].first + " against " + o.first); }
      compare(big[i].second, big[i].second, ta, ta, big[i].first + " against itself");
      for (auto const & s : std::vector<Set>{{}, {menu[0]}, {menu[7], menu[6]}}) { AABBtree tb; tb.build(s); collide(big[i].second, s, ta, tb); collide(s, big[i].second, tb, ta); }
    }, [&] { return "structured set " + big[i].first + " against all structured sets"; });
  // (3) histories: build / clear sequences on one tree
  std::vector<Set> hs = {{}, {menu[0]}, {menu[0], menu[3]}, {menu[5], menu[5], menu[6]}, big[big.size() - 1].second, big[big.size() - 4].second};
  int nh = hs.size() + 1, depth = th ? 5 : 4, tot = 1; for (int i = 0; i < depth; ++i) tot *= nh;
  AABBtree probe; probe.build(hs[4]); AABBtree other; other.build({menu[0], menu[3], menu[6]});
  for (int first = 0; first < nh; ++first) for (int second = 0; second < nh; ++second)
    mc::kase([&] {
      int rest = tot / nh / nh;
      for (int c = 0; c < rest; ++c) {
        AABBtree t; Set cur; int code = c; std::vector<int> ops = {first, second}; for (int k = 2; k < depth; ++k) { ops.push_back(code % nh); code /= nh; }
        for (int o : ops) { if (o == nh - 1) { t.clear(); cur.clear(); } else { t.build(hs[o]); cur = hs[o]; } mc::transition(); mc::state(mc::hs(str(cur))); compare(cur, {menu[0], menu[3], menu[6]}, t, other, "rebuilt tree"); }
        compare(cur, hs[4], t, probe, "rebuilt tree"); mc::trace();
      }
    }, [&] { return mc::fmt("rebuild histories starting %d, %d", first, second); });
  return mc::finish();
}
