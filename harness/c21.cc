// C21: axis-aligned box operations are exact.
#include "acmegeo.hh"
using acme::aabb; using acme::point;
struct Bx { double lo[3], hi[3]; };
static aabb mkb(Bx const & b) { return aabb(b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2], 7, 9); }
static bool eq(aabb const & a, Bx const & b) { for (int i = 0; i < 3; ++i) if (a.min(i) != b.lo[i] || a.max(i) != b.hi[i]) return false; return true; }
static std::string str(Bx const & b) { return mc::fmt("[%g,%g]x[%g,%g]x[%g,%g]", b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]); }
static std::string str(aabb const & b) { return mc::fmt("[%g,%g]x[%g,%g]x[%g,%g]", b.min(0), b.max(0), b.min(1), b.max(1), b.min(2), b.max(2)); }
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  int N = th ? 4 : 3;
  std::vector<std::pair<int,int>> iv; for (int a = 0; a <= N; ++a) for (int b = a; b <= N; ++b) iv.push_back({a, b});
  struct Map { double s[3], o[3]; };
  std::vector<Map> maps = {{{1, 1, 1}, {0, 0, 0}}, {{0.37, 1.9, 0.05}, {-1.1, 2.3, 0.7}}};
  if (th) { maps.push_back({{1e6, 1e-6, 1}, {-1e6, 0, -2}}); maps.push_back({{1, 1, 1}, {-1.5, -1.5, -1.5}}); }
  std::vector<Bx> bs; 
  for (size_t m = 0; m < maps.size(); ++m) {
    bs.clear();
    auto c = [&](int ax, int v) { return maps[m].o[ax] + maps[m].s[ax] * v; };
    for (auto const & x : iv) for (auto const & y : iv) for (auto const & z : iv) bs.push_back({{c(0, x.first), c(1, y.first), c(2, z.first)}, {c(0, x.second), c(1, y.second), c(2, z.second)}});
    for (size_t i = 0; i < bs.size(); ++i)
      mc::kase([&] {
        Bx const & b = bs[i]; aabb A = mkb(b);
        // construction, corner reordering, identifiers
        MC_OK(eq(A, b) && A.id() == 7 && A.pos() == 9 && A.checkMaxMin(), "construct", "box %s built from %s", str(A).c_str(), str(b).c_str());
        for (int k = 0; k < 8; ++k) {
          P3 lo, hi; for (int q = 0; q < 3; ++q) { lo[q] = (k >> q & 1) ? b.hi[q] : b.lo[q]; hi[q] = (k >> q & 1) ? b.lo[q] : b.hi[q]; }
          aabb C(ap(lo), ap(hi), 3, 4), D(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
          MC_OK(eq(C, b) && eq(D, b) && C.id() == 3 && C.pos() == 4, "reorder", "corners %s %s give %s and %s", str(lo).c_str(), str(hi).c_str(), str(C).c_str(), str(D).c_str());
          aabb E; E.min(lo[0], lo[1], lo[2]); E.max(hi[0], hi[1], hi[2]); bool sw = false; for (int q = 0; q < 3; ++q) sw |= lo[q] > hi[q];
          MC_OK(E.checkMaxMin() == !sw, "check-order", "checkMaxMin is %d for corners %s %s", E.checkMaxMin(), str(lo).c_str(), str(hi).c_str());
          bool r = E.updateMaxMin(); MC_OK(r == !sw && eq(E, b), "reorder", "updateMaxMin on %s %s returns %d and gives %s", str(lo).c_str(), str(hi).c_str(), r, str(E).c_str());
          // hull of three points that are corners
          P3 mid; for (int q = 0; q < 3; ++q) mid[q] = (lo[q] + hi[q]) / 2;
          P3 pts[3] = {lo, hi, mid};
          for (int s = 0; s < 6; ++s) { int pm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; aabb H; point ar[3] = {ap(pts[pm[s][0]]), ap(pts[pm[s][1]]), ap(pts[pm[s][2]])}; H.clamp(ar[0], ar[1], ar[2]); aabb G; G.clamp(ar);
            MC_OK(eq(H, b) && eq(G, b), "hull", "hull of corners of %s is %s / %s", str(b).c_str(), str(H).c_str(), str(G).c_str()); }
        }
        // points: inside, nearest and farthest distance
        for (int x = -1; x <= 2 * N + 1; ++x) for (int y = -1; y <= 2 * N + 1; ++y) for (int z = -1; z <= 2 * N + 1; ++z) {
          double p[3] = {(x & 1) ? (c(0, (x - 1) / 2) + c(0, (x + 1) / 2)) / 2 : c(0, x / 2), (y & 1) ? (c(1, (y - 1) / 2) + c(1, (y + 1) / 2)) / 2 : c(1, y / 2), (z & 1) ? (c(2, (z - 1) / 2) + c(2, (z + 1) / 2)) / 2 : c(2, z / 2)};
          if (x == -1) p[0] = c(0, -2); if (y == -1) p[1] = c(1, -2); if (z == -1) p[2] = c(2, -2);
          bool in = true; double nd = 0, fd = 0;
          for (int q = 0; q < 3; ++q) { in &= p[q] >= b.lo[q] && p[q] <= b.hi[q]; double d = std::max(0.0, std::max(b.lo[q] - p[q], p[q] - b.hi[q])), f = std::max(std::abs(p[q] - b.lo[q]), std::abs(p[q] - b.hi[q])); nd += d * d; fd += f * f; }
          nd = std::sqrt(nd); fd = std::sqrt(fd); point P(p[0], p[1], p[2]);
          MC_OK(A.isInside(P) == in, "inside", "point (%g,%g,%g) in %s: %d", p[0], p[1], p[2], str(b).c_str(), A.isInside(P));
          double gd = A.centerDistance(P), ge = A.exteriorDistance(P), sc = 1 + fd;
          MC_OK(std::abs(gd - nd) <= 1e-12 * sc, "nearest", "distance of (%g,%g,%g) from %s is %.15g, expected %.15g", p[0], p[1], p[2], str(b).c_str(), gd, nd);
          MC_OK(std::abs(ge - fd) <= 1e-12 * sc, "farthest", "farthest distance of (%g,%g,%g) from %s is %.15g, expected %.15g", p[0], p[1], p[2], str(b).c_str(), ge, fd);
          if (in) mc::nontrivial();
        }
        // translation
        for (P3 const & t : std::vector<P3>{{1, 0, 0}, {0, -2, 0.5}, {3, 4, -5}}) { aabb T = A; T.translate(ap(t)); Bx e = b; for (int q = 0; q < 3; ++q) { e.lo[q] += t[q]; e.hi[q] += t[q]; } MC_OK(eq(T, e) && T.id() == 7, "translate", "%s moved by %s is %s", str(b).c_str(), str(t).c_str(), str(T).c_str()); }
        // degeneracy, clearing
        bool deg = true; for (int q = 0; q < 3; ++q) deg &= b.lo[q] == b.hi[q];
        if (m == 0) MC_OK(A.isDegenerated() == deg, "degenerated", "%s reports degenerated %d", str(b).c_str(), A.isDegenerated());
        // pairs
        std::vector<aabb::ptr> two(2); two[0] = std::make_shared<aabb const>(A);
        for (Bx const & o : bs) {
          aabb B = mkb(o); bool hit = true; Bx x, h;
          for (int q = 0; q < 3; ++q) { hit &= b.lo[q] <= o.hi[q] && o.lo[q] <= b.hi[q]; x.lo[q] = std::max(b.lo[q], o.lo[q]); x.hi[q] = std::min(b.hi[q], o.hi[q]); h.lo[q] = std::min(b.lo[q], o.lo[q]); h.hi[q] = std::max(b.hi[q], o.hi[q]); }
          MC_OK(A.intersects(B) == hit && B.intersects(A) == hit, "overlap", "%s and %s overlap: %d / %d", str(b).c_str(), str(o).c_str(), A.intersects(B), B.intersects(A));
          aabb R; bool r = acme::Intersection(A, B, R);
          MC_OK(r == hit, "intersection", "intersection of %s and %s reports %d", str(b).c_str(), str(o).c_str(), r);
          if (hit) MC_OK(eq(R, x), "intersection", "intersection of %s and %s is %s", str(b).c_str(), str(o).c_str(), str(R).c_str());
          bool same = true; for (int q = 0; q < 3; ++q) same &= b.lo[q] == o.lo[q] && b.hi[q] == o.hi[q];
          if (m == 0) MC_OK(A.isApprox(B) == same, "approx", "%s and %s equal: %d", str(b).c_str(), str(o).c_str(), A.isApprox(B));
          two[1] = std::make_shared<aabb const>(B); aabb M(two, 5, 6);
          MC_OK(eq(M, h) && M.id() == 5 && M.pos() == 6, "merged", "hull of %s and %s is %s", str(b).c_str(), str(o).c_str(), str(M).c_str());
          if (hit) mc::outcome(mc::mixd(mc::mixd(mc::mixd(1, x.lo[0] + 7 * x.hi[0]), x.lo[1] + 7 * x.hi[1]), x.lo[2] + 7 * x.hi[2]));
        }
        aabb M2(two); std::vector<aabb::ptr> one(1, two[0]), none; aabb M1(one);
        MC_OK(eq(M1, b), "merged", "hull of the single box %s is %s", str(b).c_str(), str(M1).c_str());
        aabb M3; M3.merged(two); MC_OK(M3.isApprox(M2), "merged", "merged() and the merging constructor differ");
        if (i + 2 < bs.size() && i % 7 == 0) for (size_t j = 0; j + 3 < bs.size(); j += 3) { // three boxes
          std::vector<aabb::ptr> three = {two[0], std::make_shared<aabb const>(mkb(bs[j])), std::make_shared<aabb const>(mkb(bs[j + 2]))}; Bx h = b; for (Bx const * o : {&bs[j], &bs[j + 2]}) for (int q = 0; q < 3; ++q) { h.lo[q] = std::min(h.lo[q], o->lo[q]); h.hi[q] = std::max(h.hi[q], o->hi[q]); }
          aabb M(three); MC_OK(eq(M, h), "merged", "hull of three boxes is %s, expected %s", str(M).c_str(), str(h).c_str()); }
      }, [&] { return mc::fmt("map %zu, box ", m) + str(bs[i]) + " against all points and boxes"; });
  }
  return mc::finish();
}
