// C15: pose bookkeeping of the shell under all motion histories; the pose check.
#include "scene.hh"

struct M4 { double m[4][4]; };
static M4 I4() { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.m[i][j] = i == j; return r; }
static M4 mul(M4 const & a, M4 const & b) { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { r.m[i][j] = 0; for (int k = 0; k < 4; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static M4 tr(P3 const & t) { M4 r = I4(); for (int i = 0; i < 3; ++i) r.m[i][3] = t[i]; return r; }
static M4 ro(double a, P3 const & u)
{ M4 r = I4(); double c = std::cos(a), s = std::sin(a); P3 k = unit(u); double K[3][3] = {{0, -k[2], k[1]}, {k[2], 0, -k[0]}, {-k[1], k[0], 0}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = (i == j) * c + s * K[i][j] + (1 - c) * k[i] * k[j]; return r; }
static M4 ps(Pose const & p) { M3 R = rot(p); M4 r = I4(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = R[j][i]; r.m[0][3] = p.x; r.m[1][3] = p.y; r.m[2][3] = p.z; return r; }
static acme::affine toA(M4 const & m) { acme::affine a; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) a.matrix()(i,j) = m.m[i][j]; return a; }

static std::vector<P3> T = {{1, 0, 0}, {0, -0.5, 0}, {0.3, 0.2, 2}, {-300.25, 1200.5, 17}, {2e-8, -1e-9, 3e-7}};
static std::vector<std::pair<double,P3>> R = {{0.3, {1,0,0}}, {-1.2, {0,1,0}}, {2.5, {0,0,1}}, {3.0, unit({1,2,-1})}, {1.5707963267948966, {0,0,1}}, {-0.8, {0,0.3,0.4}}, {1e-5, {0,1,0}}, {-7.5, {0.1,-0.2,0.05}}, {-3.6, {1,0,0}}};
static std::vector<Pose> PS = {{0,0,0,0,0,0}, {1,2,3,0.4,0.5,0.6}, {-7,0.1,0.2,-2.8,-1.1,3.0}, {0.5,0.5,0.25,1.5707963267948966,0,0}};
static int nops() { return T.size() + R.size() + PS.size() + 4; }
static std::string name(int o)
{
  if (o < (int)T.size()) return "translate" + str(T[o]);
  o -= T.size(); if (o < (int)R.size()) return mc::fmt("rotate(%g,%s)", R[o].first, str(R[o].second).c_str());
  o -= R.size(); if (o < (int)PS.size()) return mc::fmt("transform(pose %d)", o);
  o -= PS.size(); return o == 0 ? "setup(flat)" : o == 1 ? "setup(mesh)" : o == 2 ? "setup(empty mesh)" : "resize";
}
static std::array<double,16> m16(M4 const & m) { std::array<double,16> r; for (int i = 0; i < 16; ++i) r[i] = m.m[i/4][i%4]; return r; }
static void run(std::vector<int> const & seq)
{
  static GObj F = mkGround(flatGround(5, 20, 0.8)), M = mkGround(grounds()[3]), E = mkGround(emptyGrounds()[0]);
  enve::shell s(3, 0.31, 2, 0.15, 2, 0.1);
  M4 x = I4(); bool exact = true; std::string w;
  for (size_t k = 0; k <= seq.size(); ++k) {
    if (k) {
      int o = seq[k-1]; w += name(o) + "; ";
      if (o < (int)T.size()) { s.translate(av(T[o])); x = mul(x, tr(T[o])); exact = false; }
      else if ((o -= T.size()) < (int)R.size()) { s.rotate(R[o].first, av(R[o].second)); x = mul(x, ro(R[o].first, R[o].second)); exact = false; }
      else if ((o -= R.size()) < (int)PS.size()) { x = ps(PS[o]); s.transform(toA(x)); exact = true; }
      else { o -= PS.size();
        if (o == 0) { x = ps(PS[1]); s.setup(*F.flat, toA(x), "geometric"); exact = true; }
        else if (o == 1) { x = ps(PS[3]); s.setup(*M.mesh, toA(x), "sampling"); exact = true; }
        else if (o == 2) { x = ps(PS[2]); s.setup(*E.mesh, toA(x), "geometric"); exact = true; }
        else s.resize(4); }
      mc::transition();
    }
    auto a = m16(s.transformation()), b = m16(x);
    double D = 1, err = 0; for (int i = 0; i < 16; ++i) { D = std::max(D, std::abs(b[i])); err = std::max(err, std::abs(a[i] - b[i])); }
    MC_OK(exact ? err == 0 : err < 1e-12 * D, "pose", "after %s: pose differs by %g%s", w.c_str(), err, exact ? " from the given one" : "");
    P3 t = p3(s.translation()); acme::mat3 L = s.linear(), Q = s.rotation();
    P3 ax[3] = {p3(s.x()), p3(s.y()), p3(s.z())}; acme::vec3 e; s.eulerAngles(e); M3 Z = zxy(p3(e));
    for (int c = 0; c < 3; ++c) {
      MC_OK(std::abs(t[c] - a[4*c+3]) == 0, "translation", "after %s: translation %s", w.c_str(), str(t).c_str());
      for (int r = 0; r < 3; ++r) {
        double v = a[4*r+c];
        MC_OK(ax[c][r] == v && L(r,c) == v && std::abs(Q(r,c) - v) < 1e-10, "axes", "after %s: axis %d row %d: axis %.12g linear %.12g rotation %.12g matrix %.12g", w.c_str(), c, r, ax[c][r], (double)L(r,c), (double)Q(r,c), v);
        MC_OK(std::abs(Z[c][r] - v) < 1e-9, "euler", "after %s: Euler angles %s do not give the pose", w.c_str(), str(p3(e)).c_str());
      }
    }
    MC_OK(s.checkTransformation(s.transformation()), "own-check", "after %s: the shell's own pose fails the pose check", w.c_str());
    uint64_t h = 1; for (int i = 0; i < 16; ++i) h = mc::mixd(h, b[i]); mc::state(h); mc::outcome(h);
  }
  mc::trace(); mc::nontrivial();
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  int N = nops(), depth = th ? 4 : 3;
  for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b)
    for (int c = 0; c < N; ++c)
      mc::kase([&] { if (depth == 3) run({a, b, c}); else for (int d = 0; d < N; ++d) run({a, b, c, d}); }, [&] { return "motions " + name(a) + "; " + name(b) + "; " + name(c) + (depth > 3 ? "; then every operation" : ""); });
  // longer histories over a small set
  std::vector<int> few = {1, 2, (int)T.size(), (int)T.size() + 2, (int)(T.size() + R.size()) + 1};
  int L = th ? 8 : 6; long tot = 1; for (int i = 0; i < L; ++i) tot *= few.size();
  for (long c = 0; c < tot; ++c)
    mc::kase([&] { std::vector<int> q; long k = c; for (int i = 0; i < L; ++i) { q.push_back(few[k % few.size()]); k /= few.size(); } run(q); },
             [&] { std::string w = "long history"; long k = c; for (int i = 0; i < L; ++i) { w += " " + name(few[k % few.size()]); k /= few.size(); } return w; });
  // pose check: every rigid motion of a lattice with every deviation
  std::vector<double> an = {0, 0.3, 1.5707963267948966, -2.2, 3.141592653589793, 5.0};
  if (th) for (double v : {0.7, -1.0, 2.9, 4.1}) an.push_back(v);
  enve::shell s(1, 0.3, 2, 0.2, 4, 0.1);
  for (double ya : an) for (double ca : an)
    mc::kase([&] {
      for (double sp : an) for (int ti = 0; ti < 3; ++ti) {
        P3 t = ti == 0 ? P3{0,0,0} : ti == 1 ? P3{1e4, -3, 2} : P3{0.1, 0.2, 0.3};
        M4 g = ps({t[0], t[1], t[2], ya, ca, sp});
        auto ok = [&](M4 const & m) { acme::affine A = toA(m); bool a = s.checkTransformation(A), b = s.checkTransformation(acme::mat4(A.matrix())); MC_OK(a == b, "check-forms", "affine and matrix forms of the check disagree"); return a; };
        MC_OK(ok(g), "accept", "rigid pose yaw %g camber %g spin %g rejected", ya, ca, sp);
        auto rej = [&](M4 const & m, char const * what, double by) { MC_OK(!ok(m), "reject", "%s (%g) at yaw %g camber %g spin %g accepted", what, by, ya, ca, sp); };
        for (double d : {1e-3, -1e-3, 0.1, -0.5, 2.0}) {
          for (int i = 0; i < 3; ++i) {
            M4 m = g; for (int r = 0; r < 3; ++r) m.m[r][i] *= 1 + d; rej(m, "scaled axis", d);
            m = g; for (int c = 0; c < 3; ++c) m.m[i][c] *= 1 + d; rej(m, "scaled row", d);
            for (int j = 0; j < 3; ++j) if (j != i) { m = g; for (int r = 0; r < 3; ++r) m.m[r][i] += d * g.m[r][j]; rej(m, "sheared axes", d); }
            m = g; for (int r = 0; r < 3; ++r) m.m[r][i] *= 1 + d; for (int r = 0; r < 3; ++r) m.m[r][(i + 1) % 3] /= 1 + d; rej(m, "volume preserving stretch", d);
          }
          M4 m = g; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) m.m[r][c] *= 1 + d; rej(m, "scaled", d);
          for (int c = 0; c < 4; ++c) { m = g; m.m[3][c] += d; rej(m, "changed last row", d); }
        }
        for (int i = 0; i < 3; ++i) { M4 m = g; for (int r = 0; r < 3; ++r) m.m[r][i] *= -1; rej(m, "mirrored axis", i);
          m = g; for (int r = 0; r < 3; ++r) std::swap(m.m[r][i], m.m[r][(i + 1) % 3]); rej(m, "swapped axes", i);
          m = g; for (int r = 0; r < 3; ++r) m.m[r][i] = 0; rej(m, "zero axis", i);
          m = g; for (int r = 0; r < 3; ++r) m.m[r][i] = m.m[r][(i + 1) % 3]; rej(m, "equal axes", i);
          m = g; m.m[i][i] = std::nan(""); rej(m, "NaN", i); }
        { M4 m = g; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) m.m[r][c] *= -1; rej(m, "point reflection", -1); }
        mc::nontrivial();
      }
    }, [&] { return mc::fmt("pose check at yaw %g camber %g, every spin, place and deviation", ya, ca); });
  return mc::finish();
}
