// C18: the S-function protocol mirrors the library, for every call sequence.
#include "scene.hh"
#include "enve_sfun_interface.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

struct Par { double n, rx, mx, ry, my, ly, h, f; char const * file; };
static std::vector<Par> PAR = {
  {3, 0.31, 2, 0.15, 2, 0.1, -0.02, 0.6, "./g_a.rdf"},
  {25, 0.3, 4, 0.2, 6, 0.12, 0.05, 1.5, "./g_b.obj"},
  {20, 0.3, 2, 0.2, 4, 0.1, 0.0, 1, "./g_a.rdf"}};
static std::vector<TriRef> grA, grB;
static void files()
{
  Ground a = gridGround("a", -0.613, 0.6071, 4, -0.6171, 0.6029, 4, [](double, double, int i, int j) { return bump(i, j, 0.12); });
  Ground b = gridGround("b", -0.513, 0.7071, 3, -0.7171, 0.6029, 3, [](double, double, int i, int j) { return 0.03 + bump(j, i, 0.08); });
  std::ostringstream r, o; r.precision(17); o.precision(17);
  std::ostringstream el;
  r << "[NODES]\n"; int k = 0;
  for (auto const & t : a.t) { for (auto const & v : t.v) r << k++ << " " << v[0] << " " << v[1] << " " << v[2] << "\n"; el << k - 3 << " " << k - 2 << " " << k - 1 << " " << t.f << "\n"; }
  r << "[ELEMENTS]\n" << el.str();
  k = 1; std::ostringstream fl;
  for (auto const & t : b.t) { for (auto const & v : t.v) o << "v " << v[0] << " " << v[1] << " " << v[2] << "\n", ++k; fl << "f " << k - 3 << " " << k - 2 << " " << k - 1 << "\n"; }
  o << fl.str();
  std::ofstream("g_a.rdf") << r.str(); std::ofstream("g_b.obj") << o.str(); std::ofstream("g_bad.rdf") << "[NODES]\n0 1 2\n"; std::ofstream("g_c.txt") << "x";
}
static std::vector<Pose> POSE = {{0.013, 0.0071, 0.22, 0.3, 0.1, 0.7}, {3, 4, 0.2, -2.1, -0.2, 5}, {0.1, -0.1, 0.5, 1, 0.05, 0}};
static const int NI = 3; // good inits
enum { INIT_BAD_ENV = NI, INIT_BAD_EXT, INIT_BAD_SHORT, INIT_NO_FILE, INIT_BAD_FILE, INIT_BAD_SHAPE, INIT_ZERO, END_, STEP0 };
static int nsteps() { return (int)POSE.size() * 4; }
static int nops() { return STEP0 + nsteps() + 4; }
static std::string name(int o)
{
  if (o < NI) return mc::fmt("init(%g ribs, %s)", PAR[o].n, PAR[o].file);
  switch (o) { case INIT_BAD_ENV: return "init without environment variable"; case INIT_BAD_EXT: return "init with a .txt file"; case INIT_BAD_SHORT: return "init with the path 'a'"; case INIT_NO_FILE: return "init with a missing file";
    case INIT_BAD_FILE: return "init with a malformed file"; case INIT_BAD_SHAPE: return "init with zero radius"; case INIT_ZERO: return "init with zero ribs"; case END_: return "end"; }
  o -= STEP0;
  if (o < nsteps()) return mc::fmt("step(pose %d, method %d, flat %d)", o / 4, o / 2 % 2, o % 2);
  o -= nsteps();
  return o == 0 ? "step(method 2)" : o == 1 ? "step(method 0.5)" : o == 2 ? "step(flat 2)" : "step(flat -1)";
}
static void init(int o)
{
  Par p = PAR[o < NI ? o : 0]; std::string file = p.file;
  if (o == INIT_BAD_EXT) file = "./g_c.txt"; if (o == INIT_BAD_SHORT) file = "a"; if (o == INIT_NO_FILE) file = "./nothing.rdf"; if (o == INIT_BAD_FILE) file = "./g_bad.rdf";
  if (o == INIT_BAD_SHAPE) p.rx = 0; if (o == INIT_ZERO) p.n = 0;
  if (o == INIT_BAD_ENV) unsetenv("ENVE_GROUND_PATH"); else setenv("ENVE_GROUND_PATH", file.c_str(), 1);
  enve_sfun_init(&p.n, &p.rx, &p.mx, &p.ry, &p.my, &p.ly, &p.h, &p.f);
}
struct Guarded { double before[64]; EnveOutputBus bus; double after[64]; };
static void fill(Guarded & g) { double * d = (double *)&g; for (size_t i = 0; i < sizeof(Guarded) / 8; ++i) d[i] = 12345.5 + i; }
static bool guards(Guarded const & g)
{ double const * d = (double const *)&g; size_t n = sizeof(Guarded) / 8, b = 64, e = n - 64; for (size_t i = 0; i < n; ++i) if ((i < b || i >= e) && d[i] != 12345.5 + i) return false; return true; }
static void step(int pose, double method, double flat, EnveOutputBus & bus)
{
  EnveInputBus in; acme::affine A = aff(POSE[pose]);
  for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) in.HubAffine[r + 4 * c] = A.matrix()(r, c);
  enve_sfun_out(&in, &bus, &method, &flat);
}
struct Ref { Snap s; bool inMesh; };
static Ref const & ref(int par, int pose, int method, int flat)
{
  static std::map<int, Ref> cache; static std::map<int, std::unique_ptr<enve::ground::mesh>> meshes;
  int k = ((par * 10 + pose) * 10 + method) * 10 + flat;
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  Par const & p = PAR[par];
  auto & m = meshes[par]; std::string f = p.file; acme::affine I; I.matrix() = acme::mat4::Identity();
  if (!m) { if (f.find(".rdf") != std::string::npos) m.reset(new enve::ground::mesh(f, I)); else m.reset(new enve::ground::mesh(f, 1.0, I)); }
  enve::shell s((size_t)p.n, p.rx, p.mx, p.ry, p.my, p.ly);
  enve::ground::flat fl(p.f, acme::point(0, 0, p.h), acme::vec3(0, 0, 1));
  Ref r;
  if (flat) { bool t = s.setup(fl, aff(POSE[pose]), METHODS[method]); r.inMesh = true; r.s = snap(s, t); }
  else {
    r.inMesh = s.setup(*m, aff(POSE[pose]), METHODS[method]);
    if (!r.inMesh) { enve::shell s2((size_t)p.n, p.rx, p.mx, p.ry, p.my, p.ly); bool t = s2.setup(fl, aff(POSE[pose]), METHODS[method]); r.s = snap(s2, t); }
    else r.s = snap(s, true);
  }
  return cache.emplace(k, r).first->second;
}
static void compare(Guarded const & g, Ref const & r, std::string const & w)
{
  EnveOutputBus const & b = g.bus;
  MC_OK(guards(g), "outside", "after %s: memory outside the output bus was written", w.c_str());
  MC_OK(b.InMesh == (r.inMesh ? 1.0 : 0.0), "in-mesh", "after %s: in-mesh flag %g, expected %d", w.c_str(), b.InMesh, r.inMesh);
  auto col = [](double const * a, std::array<double,16> const & m) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (!beq(a[i + 4 * j], m[4 * i + j])) return false; return true; };
  MC_OK(col(b.ShellAffine, r.s.frame) && beq(b.ShellRho, r.s.d) && beq(b.ShellFriction, r.s.f), "shell-out", "after %s: wheel output differs (depth %.12g expected %.12g, friction %.12g expected %.12g)", w.c_str(), b.ShellRho, r.s.d, b.ShellFriction, r.s.f);
  for (int i = 0; i < ENVE_MAX_RIBS; ++i) {
    if (i < (int)r.s.n) MC_OK(col(b.RibsAffine + 16 * i, r.s.frames[i]) && beq(b.RibsRho[i], r.s.ds[i]) && beq(b.RibsFriction[i], r.s.fs[i]), "rib-out", "after %s: output of rib %d differs (depth %.12g expected %.12g)", w.c_str(), i, b.RibsRho[i], r.s.ds[i]);
    else { bool nan = std::isnan(b.RibsRho[i]) && std::isnan(b.RibsFriction[i]); for (int k = 0; k < 16; ++k) nan = nan && std::isnan(b.RibsAffine[16 * i + k]);
      MC_OK(nan, "nan-slot", "after %s: unused rib slot %d is not NaN", w.c_str(), i); }
  }
}
static void run(std::vector<int> const & seq)
{
  enve_sfun_end();
  int cur = -1; std::string w;
  for (int o : seq) {
    w += name(o) + "; "; mc::transition();
    bool thrown = false; std::string what;
    if (o < END_) {
      try { init(o); } catch (std::exception const & e) { thrown = true; what = e.what(); }
      MC_OK(thrown == (o >= NI), "init-error", "after %s: init %s", w.c_str(), thrown ? ("failed: " + what).c_str() : "accepted");
      if (o < NI) cur = o;
    } else if (o == END_) { enve_sfun_end(); cur = -1; }
    else {
      int k = o - STEP0; Guarded g; fill(g);
      double me = 0, fl = 0; int pose = 0;
      if (k < nsteps()) { pose = k / 4; me = k / 2 % 2; fl = k % 2; } else { k -= nsteps(); if (k == 0) me = 2; if (k == 1) me = 0.5; if (k == 2) fl = 2; if (k == 3) fl = -1; k = -1; }
      try { step(pose, me, fl, g.bus); } catch (std::exception const & e) { thrown = true; }
      bool bad = k < 0 || cur < 0;
      MC_OK(thrown == bad, "step-error", "after %s: step %s", w.c_str(), thrown ? "failed" : "accepted");
      MC_OK(guards(g), "outside", "after %s: memory outside the output bus was written", w.c_str());
      if (!bad && !thrown) { Ref const & r = ref(cur, pose, (int)me, (int)fl); compare(g, r, w); if (r.s.ret) mc::nontrivial(); mc::outcome(mc::mix(hash(r.s), r.inMesh)); }
    }
    mc::state(mc::mix(mc::mix(7, cur), thrown ? -1 : o));
  }
  mc::trace();
  enve_sfun_end();
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  files();
  int N = nops();
  for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b)
    mc::kase([&] {
      for (int c = 0; c < N; ++c) { if (!th) run({a, b, c}); else for (int d = 0; d < N; ++d) run({a, b, c, d}); }
    }, [&] { return name(a) + "; " + name(b) + "; then every " + (th ? "two operations" : "operation"); });
  for (int a = 0; a < NI; ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c)
    mc::kase([&] {
      for (int d = 0; d < N; ++d) { if (!th) run({a, b, c, d}); else for (int e = STEP0; e < STEP0 + nsteps(); e += 3) run({a, b, c, d, e}); }
    }, [&] { return name(a) + "; " + name(b) + "; " + name(c) + "; then every continuation"; });
  // every rib count around the bus size, every pose/method/selector
  std::vector<int> counts; for (int n = 1; n <= 45; ++n) counts.push_back(n);
  for (int n : {50, 51, 63, 64, 65, 99, 100, 101, 128, 199, 200, 201, 255, 256, 257, 333}) counts.push_back(n);
  for (int n : counts)
    mc::kase([&] {
      PAR.resize(NI); Par p = PAR[n % 2]; p.n = n; PAR.push_back(p);
      double n_ = n; setenv("ENVE_GROUND_PATH", p.file, 1);
      enve_sfun_end(); enve_sfun_init(&n_, &p.rx, &p.mx, &p.ry, &p.my, &p.ly, &p.h, &p.f);
      for (int k = 0; k < nsteps(); ++k) {
        Guarded g; fill(g); step(k / 4, k / 2 % 2, k % 2, g.bus); mc::transition();
        Par const & q = PAR.back(); enve::shell s((size_t)n, q.rx, q.mx, q.ry, q.my, q.ly); enve::ground::flat fl(q.f, acme::point(0, 0, q.h), acme::vec3(0, 0, 1));
        std::string f = q.file; acme::affine I; I.matrix() = acme::mat4::Identity(); std::unique_ptr<enve::ground::mesh> m(f.find(".rdf") != std::string::npos ? new enve::ground::mesh(f, I) : new enve::ground::mesh(f, 1.0, I));
        Ref r; r.inMesh = true; bool t = true; if (k % 2 == 0) r.inMesh = s.setup(*m, aff(POSE[k / 4]), METHODS[k / 2 % 2]); if (k % 2 || !r.inMesh) t = s.setup(fl, aff(POSE[k / 4]), METHODS[k / 2 % 2]);
        r.s = snap(s, t); compare(g, r, mc::fmt("%d ribs, %s", n, name(STEP0 + k).c_str())); mc::nontrivial();
      }
      mc::trace(); enve_sfun_end();
    }, [&] { return mc::fmt("%d ribs, every step", n); });
  // end releases everything: memory in use does not grow over lifecycles
  for (int a = 0; a < NI; ++a) for (int b = -1; b < NI; ++b)
    mc::kase([&] {
      size_t used[3];
      Guarded g; fill(g);
      for (int r = 0; r < 3; ++r) {
        for (int k = 0; k < 10; ++k) { init(a); step(0, 0, 0, g.bus); step(1, 1, 0, g.bus); if (b >= 0) { init(b); step(2, 0, 1, g.bus); } enve_sfun_end(); }
        used[r] = __sanitizer_get_current_allocated_bytes();
      }
      MC_OK(used[2] <= used[1] + 256, "leak", "memory in use grows from %zu to %zu bytes over ten lifecycles", used[1], used[2]);
      mc::nontrivial(); mc::trace();
    }, [&] { return "lifecycles of " + name(a) + (b >= 0 ? " and again " + name(b) : std::string()); });
  return mc::finish();
}
