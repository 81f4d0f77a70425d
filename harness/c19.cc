// C19: wheels sharing one ground never affect each other.
// (a) operation-level interleavings of two and three shells in one thread,
// (b) thread interleavings of the real code under a controlled scheduler that
//     can switch before every access to shared memory (preemption bound 1 and
//     2), with detection of unsynchronised conflicting accesses.
#include "scene.hh"
#include "c19rt.hh"

static WheelDef WD[3] = {{2, 0.31, 2, 0.15, 2, 0.1}, {3, 0.29, 4, 0.2, 4, 0.12}, {1, 0.3, 2, 0.2, 4, 0.1}};
static std::vector<Pose> PS = {{0.013, 0.0071, 0.22, 0.3, 0.1, 0.7}, {-0.21, 0.104, 0.19, 2.1, -0.2, 5}, {3, 4, 0.25, 1, 0, 0}};
struct Op { int kind; int g, p, m; }; // 0 setup, 1 mesh query, 2 mesh element access
static std::vector<Op> OPS(bool small)
{
  std::vector<Op> o = {{0, 0, 0, 0}, {0, 0, 1, 1}, {0, 1, 0, 0}, {1, 0, 0, 0}};
  if (!small) for (Op x : std::vector<Op>{{0, 0, 1, 0}, {0, 0, 0, 1}, {0, 0, 2, 0}, {0, 1, 1, 1}, {2, 0, 0, 0}}) o.push_back(x);
  return o;
}
static std::string str(Op const & o)
{ return o.kind == 0 ? mc::fmt("setup(%s, pose %d, %s)", o.g ? "flat" : "mesh", o.p, METHODS[o.m]) : o.kind == 1 ? "mesh query" : "mesh elements"; }

struct Out { Snap s; std::vector<int> ids; bool has = false; };
struct Scene { std::unique_ptr<enve::ground::mesh> mesh; std::unique_ptr<enve::ground::flat> flat; };
static Ground meshDef(int which)
{
  if (which == 0) { Ground s; s.t.push_back({{{-0.8, -0.7, 0.0123}, {0.9, -0.65, -0.02}, {0.0317, 0.81, 0.05}}, 0.8}); return s; }
  if (which == 1) return gridGround("g", -0.513, 0.5071, 2, -0.5171, 0.5029, 2, [](double, double, int i, int j) { return bump(i, j, 0.1); });
  return gridGround("g", -0.913, 0.9071, 6, -0.9171, 0.9029, 5, [](double, double, int i, int j) { return bump(i, j, 0.1); });
}
static Ground GD[3];
static Scene build(int which)
{
  Scene s; s.mesh.reset(new enve::ground::mesh(tv(GD[which].t))); s.flat.reset(new enve::ground::flat(0.7, acme::point(0, 0, 0.01), acme::vec3(0.1, -0.05, 1))); return s;
}
static void exec(Op const & o, enve::shell & s, Scene const & sc, acme::affine const * pose, Out & out)
{
  if (o.kind == 0) {
    bool r = o.g ? s.setup(*sc.flat, pose[o.p], METHODS[o.m]) : s.setup(*sc.mesh, pose[o.p], METHODS[o.m]);
    // read all outputs of the own shell while others may run
    acme::point p; acme::vec3 v; acme::real x; acme::affine A; s.contactPoint(p); s.contactNormal(v); s.contactDepth(x); s.contactPointAffine(A); s.relativeAngles(v);
    int k = rt::owner(); rt::setOwner(rt::HARNESS); out.s = snap(s, r); out.has = true; rt::setOwner(k);
  } else if (o.kind == 1) {
    enve::triangleground::vecptr l;
    acme::aabb::ptr b = std::make_shared<acme::aabb>(acme::point(-0.3, -0.3, -1), acme::point(0.2, 0.3, 1));
    sc.mesh->intersection(b, l);
    int k = rt::owner(); rt::setOwner(rt::HARNESS); out.ids.clear(); for (auto const & t : l) out.ids.push_back(t->id()); std::sort(out.ids.begin(), out.ids.end()); rt::setOwner(k);
  } else {
    std::vector<int> n; int sum = 0; for (size_t i = 0; i < sc.mesh->size(); ++i) { auto t = (*sc.mesh)[i]; sum += t->id() * 3 + (int)(t->friction() * 8); auto q = sc.mesh->ptrTriangleground(i); sum += q->id(); }
    int k = rt::owner(); rt::setOwner(rt::HARNESS); out.ids.assign(1, sum); rt::setOwner(k);
  }
}
static std::string differ(Out const & a, Out const & b)
{
  if (a.has != b.has) return "presence of results";
  if (a.has) { std::string d = diff(a.s, b.s); if (!d.empty()) return d; }
  return a.ids == b.ids ? "" : "query result";
}
typedef std::vector<Op> Prog;
struct Run { rt::Result r; std::vector<Out> out; std::string ground; };
static std::string groundState(Scene const & s)
{
  std::string o = mc::fmt("%zu;", s.mesh->size());
  for (size_t i = 0; i < s.mesh->size(); ++i) { auto t = (*s.mesh)[i]; P3 n = p3(t->normal()), a = p3(t->vertex(0)), b = p3(t->vertex(1)), c = p3(t->vertex(2)); auto bx = t->bbox(); P3 lo = p3(bx.min()), hi = p3(bx.max());
    o += mc::fmt("%d %a %a %a %a %a %a %a %a %a %a %a %a %a %a %a %a %a;", (int)t->id(), (double)t->friction(), n[0], n[1], n[2], a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2], lo[0], lo[2], hi[0], hi[2]); }
  P3 fo = p3(s.flat->origin()), fn = p3(s.flat->normal()); o += mc::fmt("%a %a %a %a %a %a %a", fo[0], fo[1], fo[2], fn[0], fn[1], fn[2], (double)s.flat->friction());
  return o;
}
// one execution of the programs (one per thread) under a schedule
static Run execute(int which, std::vector<Prog> const & progs, std::vector<rt::Slice> const & plan)
{
  Run R; R.out.resize(progs.size());
  acme::affine pose[3]; for (int i = 0; i < 3; ++i) pose[i] = aff(PS[i]);
  rt::setOwner(rt::SHARED);
  {
    Scene sc = build(which);
    std::vector<std::unique_ptr<enve::shell>> sh(progs.size());
    for (size_t i = 0; i < progs.size(); ++i) { rt::setOwner(rt::T0 + i); sh[i] = mk(WD[i]); }
    rt::setOwner(rt::HARNESS);
    std::vector<std::function<void()>> b;
    for (size_t i = 0; i < progs.size(); ++i) b.push_back([&, i] { for (auto const & o : progs[i]) exec(o, *sh[i], sc, pose, R.out[i]); });
    R.r = rt::run(b, plan);
    R.ground = groundState(sc);
    rt::setOwner(rt::SHARED);
    if (R.r.deadlock) return R;
    for (size_t i = 0; i < progs.size(); ++i) sh[i].reset();
  }
  rt::setOwner(rt::HARNESS);
  return R;
}
static std::string str(Prog const & p) { std::string s; for (auto const & o : p) s += (s.empty() ? "" : ", ") + str(o); return s; }
static Out alone(int which, int th, Prog const & p)
{ // reference: the program runs alone (same wheel) as the only thread of that number
  std::vector<Prog> v(th + 1); v[th] = p; return execute(which, v, {}).out[th];
}
static void judge(Run const & R, std::vector<Out> const & ref, std::string const & g0, std::string const & w)
{
  MC_OK(!R.r.deadlock, "deadlock", "%s: the threads wait for each other forever", w.c_str());
  if (R.r.deadlock) { mc::finish(); _exit(0); }
  MC_OK(!R.r.race, "race", "%s: unsynchronised conflicting access to shared memory at %p", w.c_str(), R.r.where);
  MC_OK(!R.r.foreign, "foreign", "%s: a wheel's evaluation touched memory of another wheel", w.c_str());
  for (size_t i = 0; i < ref.size(); ++i) { std::string d = differ(R.out[i], ref[i]); MC_OK(d.empty(), "interference", "%s: thread %zu: %s differs from running alone", w.c_str(), i, d.c_str()); }
  MC_OK(R.ground == g0, "ground-changed", "%s: the ground was modified", w.c_str());
}

int main(int argc, char ** argv)
{
  rt::setOwner(rt::HARNESS);
  mc::init(argc, argv);
  bool th = mc::thorough();
  for (int i = 0; i < 3; ++i) GD[i] = meshDef(i);
  { // function-local statics are initialised once, before exploration
    for (int w = 0; w < 3; ++w) for (auto const & o : OPS(false)) execute(w, {Prog{o}}, {});
  }
  auto ops = OPS(false);
  // (b1) preemption bound 1: thread A stops before its k-th shared access, B runs whole, A continues
  for (int which = 0; which < (th ? 3 : 2); ++which) for (auto const & a : ops) for (auto const & b : ops)
    mc::kase([&] {
      std::vector<Prog> pr = {{a}, {b}}; std::vector<Out> ref = {alone(which, 0, pr[0]), alone(which, 1, pr[1])};
      Run r0 = execute(which, pr, {}); std::string g0; { rt::setOwner(rt::SHARED); { Scene s = build(which); g0 = groundState(s); } rt::setOwner(rt::HARNESS); }
      judge(r0, ref, g0, "in sequence"); mc::trace();
      long n = r0.r.accesses[0];
      for (long k = 1; k <= n; ++k) { Run r = execute(which, pr, {{0, k}, {1, 1L << 40}}); judge(r, ref, g0, mc::fmt("switch before shared access %ld of %ld", k + 1, n)); mc::trace(); mc::transition(r.r.switches); mc::state(mc::mix(mc::mix(mc::S().idx, k), 0)); }
      Run rr = execute(which, pr, {{1, 1L << 40}}); judge(rr, ref, g0, "second thread first"); mc::trace();
      mc::note("shared accesses", n); mc::note("shared writes", r0.r.sharedWrites);
      if (n) mc::nontrivial(); if (ref[0].has) mc::outcome(hash(ref[0].s));
    }, [&] { return mc::fmt("preemption bound 1, mesh %d: {%s} || {%s}", which, str(a).c_str(), str(b).c_str()); });
  // (b2) preemption bound 2 on the one-triangle mesh: A to k, B to j, A to its end, B to its end
  auto few = OPS(true);
  for (auto const & a : few) for (auto const & b : few) {
    // split by k so that cases shard evenly
    for (int part = 0; part < 16; ++part)
      mc::kase([&] {
        std::vector<Prog> pr = {{a}, {b}}; std::vector<Out> ref = {alone(0, 0, pr[0]), alone(0, 1, pr[1])};
        Run r0 = execute(0, pr, {}); std::string g0 = r0.ground;
        long n = r0.r.accesses[0], m = r0.r.accesses[1];
        // step through every pair of access indices of the smaller programs; in the quick tier one residue class of j per k
        long dj = th ? 1 : std::max(1L, n * m / 12000);
        for (long k = 1 + part; k <= n; k += 16) for (long j = 1 + k % dj; j <= m; j += dj) {
          Run r = execute(0, pr, {{0, k}, {1, j}, {0, 1L << 40}}); judge(r, ref, g0, mc::fmt("switches before access %ld of A and %ld of B", k + 1, j + 1)); mc::trace(); mc::transition(r.r.switches);
        }
        if (n) mc::nontrivial();
      }, [&] { return mc::fmt("preemption bound 2, part %d: {%s} || {%s}", part, str(a).c_str(), str(b).c_str()); });
  }
  // (b3) three threads, and programs of two operations, all at preemption bound 1
  for (auto const & a : few) for (auto const & b : few) for (auto const & c : few)
    mc::kase([&] {
      std::vector<Prog> pr = {{a, b}, {b}, {c}}; std::vector<Out> ref; for (int i = 0; i < 3; ++i) ref.push_back(alone(1, i, pr[i]));
      Run r0 = execute(1, pr, {}); std::string g0 = r0.ground; judge(r0, ref, g0, "in sequence"); mc::trace();
      long n = r0.r.accesses[0], step = th ? 1 : std::max(1L, n / 60);
      for (long k = 1; k <= n; k += step) for (int o = 0; o < 2; ++o) {
        long h = r0.r.accesses[1 + o] / 2;
        Run r = execute(1, pr, {{0, k}, {1 + o, h}, {2 - o, 1L << 40}, {0, 1L << 40}}); judge(r, ref, g0, mc::fmt("A stopped after %ld, thread %d halfway, then the other", k, 1 + o)); mc::trace(); mc::transition(r.r.switches);
      }
      mc::nontrivial();
    }, [&] { return mc::fmt("three threads: {%s, %s} || {%s} || {%s}", str(a).c_str(), str(b).c_str(), str(b).c_str(), str(c).c_str()); });
  // (a) every interleaving of the operations of two wheels (three operations each) in one thread
  auto merges = [&](int na, int nb, std::function<void(std::vector<int> const &)> f) { for (int m = 0; m < (1 << (na + nb)); ++m) { if (__builtin_popcount(m) != nb) continue; std::vector<int> o; for (int i = 0; i < na + nb; ++i) o.push_back(m >> i & 1); f(o); } };
  auto small = th ? ops : few;
  for (auto const & a1 : small) for (auto const & a2 : small) for (auto const & a3 : few)
    mc::kase([&] {
      acme::affine pose[3]; for (int i = 0; i < 3; ++i) pose[i] = aff(PS[i]);
      Scene sc = build(2), fresh = build(2); std::string g0 = groundState(fresh);
      for (auto const & b1 : few) for (auto const & b2 : few) for (auto const & b3 : few) {
        Op A[3] = {a1, a2, a3}, B[3] = {b1, b2, b3};
        auto want = [&](int wi, Op const & o) -> Out & { static std::map<std::string, Out> c; std::string k = mc::fmt("%d %d %d %d %d", wi, o.kind, o.g, o.p, o.m); auto it = c.find(k); if (it == c.end()) { Out x; auto s = mk(WD[wi]); exec(o, *s, fresh, pose, x); it = c.emplace(k, x).first; } return it->second; };
        merges(3, 3, [&](std::vector<int> const & ord) {
          auto s0 = mk(WD[0]), s1 = mk(WD[1]); int i = 0, j = 0; std::string w;
          for (int who : ord) {
            Op const & o = who ? B[j] : A[i]; (who ? j : i)++; Out x; exec(o, who ? *s1 : *s0, sc, pose, x); Out & y = want(who, o); mc::transition();
            std::string d = differ(x, y);
            if (!d.empty()) { for (int q : ord) w += q ? 'B' : 'A'; }
            MC_OK(d.empty(), "operation-interference", "order %s, B = {%s, %s, %s}: %s of wheel %c differs from running alone", w.c_str(), str(b1).c_str(), str(b2).c_str(), str(b3).c_str(), d.c_str(), 'A' + who);
          }
          mc::trace();
        });
      }
      MC_OK(groundState(sc) == g0, "ground-changed", "the ground was modified by evaluations");
      mc::nontrivial();
    }, [&] { return mc::fmt("operation interleavings: A = {%s, %s, %s}, B any three", str(a1).c_str(), str(a2).c_str(), str(a3).c_str()); });
  int rc = mc::finish();
  _exit(rc); // worker threads still wait
}
