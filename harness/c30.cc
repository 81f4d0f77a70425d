// C30: the MEX functions mirror the library for every command history, and
// refuse every call whose arguments do not fit, leaving everything unchanged.
#include "common.hh"
#include "mex/mexrt.hh"
#include "mex_utils.hh"
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

enum Kind { FLAT, MESH, SHELL, TRI, NKIND };
static char const * KN[] = {"mex_flat", "mex_mesh", "mex_shell", "mex_triangleground"};
typedef std::vector<mxArray *> Args;
struct Res { bool ok; std::vector<mxArray *> out; std::string err; };
static Res call(Kind k, int nlhs, Args const & in)
{
  std::vector<mxArray const *> prhs(in.begin(), in.end()); prhs.resize(in.size() + 8, nullptr);
  Res r; r.out.assign(nlhs < 1 ? 1 : nlhs, nullptr); std::vector<mxArray *> plhs(8, nullptr);
  mx::erred = false; r.ok = true;
  static void (*const F[])(int, mxArray **, int, mxArray const **) = {mexFunction_flat, mexFunction_mesh, mexFunction_shell, mexFunction_triangleground};
  try { F[k](nlhs, plhs.data(), (int)in.size(), prhs.data()); } catch (MexError const & e) { r.ok = false; r.err = e.msg; }
  for (int i = 0; i < (int)r.out.size(); ++i) r.out[i] = plhs[i];
  for (int i = 0; i < nlhs; ++i) if (r.ok && !plhs[i]) { r.ok = false; r.err = "output not assigned"; }
  mc::transition();
  return r;
}
// ---------------------------------------------------------------- objects with their shadow
struct Obj {
  Kind k; uint64_t h = 0;
  std::shared_ptr<enve::ground::flat> f; std::shared_ptr<enve::ground::mesh> m; std::shared_ptr<enve::shell> s; std::shared_ptr<enve::triangleground> t;
  bool setup = false;
};
typedef std::shared_ptr<Obj> O;
static long liveHandles = 0;
static mxArray * H(O const & o) { return mx::handle(o->h); }
static bool take(O & o, Res const & r)
{ if (!r.ok || mxGetClassID(r.out[0]) != mxUINT64_CLASS || mxGetNumberOfElements(r.out[0]) != 1) return false; o->h = *(uint64_t *)mxGetData(r.out[0]); ++liveHandles; return true; }
static std::vector<double> cm(acme::affine const & A) { std::vector<double> v; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) v.push_back(A.matrix()(r, c)); return v; }
static mxArray * M4(acme::affine const & A) { return mx::mat(4, 4, cm(A)); }
static mxArray * V3(P3 const & v) { return mx::mat(3, 1, {v[0], v[1], v[2]}); }
static bool same(double a, double b) { return (a != a && b != b) || a == b || std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b)) + 1e-300; }

// ---------------------------------------------------------------- expected values
struct Exp { int rows, cols; std::vector<double> v; int handle = 0; }; // handle: 1 point, 2 plane, 3 triangleground
static Exp S(double v) { return Exp{1, 1, {v}}; }
template <class T> static Exp V(T const & v) { return Exp{3, 1, {v[0], v[1], v[2]}}; }
static Exp PT(acme::point const & p) { return Exp{3, 1, {p.x(), p.y(), p.z()}, 1}; }
static Exp TG(enve::triangleground const & t)
{
  Exp e{0, 0, {}, 3}; for (int i = 0; i < 3; ++i) for (int c = 0; c < 3; ++c) e.v.push_back(t.vertex(i)[c]);
  for (int c = 0; c < 3; ++c) e.v.push_back(t.normal()[c]); e.v.push_back(t.id()); e.v.push_back(t.friction());
  for (int c = 0; c < 3; ++c) { e.v.push_back(t.bbox().min(c)); e.v.push_back(t.bbox().max(c)); } return e;
}
static Exp PL(acme::plane const & p) { Exp e{0, 0, {}, 2}; for (int c = 0; c < 3; ++c) e.v.push_back(p.origin()[c]); for (int c = 0; c < 3; ++c) e.v.push_back(p.normal()[c]); return e; }
template <class T> static bool handleValues(mxArray const * a, std::vector<double> & v, std::function<Exp(T const &)> get)
{
  try { T * p = utils::mex_convert_mx_to_ptr<T>(a); v = get(*p).v; mxArray const * b = a; utils::mex_destroy_object<T>(b); return true; }
  catch (MexError const &) { return false; }
}
static void compare(std::string const & what, Res const & r, Exp const & e)
{
  MC_OK(r.ok, "refused", "%s was refused: %s", what.c_str(), r.err.c_str());
  if (!r.ok) return;
  mxArray const * a = r.out[0]; std::vector<double> v; bool shape = true;
  if (e.handle) {
    bool ok = e.handle == 1 ? handleValues<acme::point>(a, v, [](acme::point const & p) { return PT(p); })
            : e.handle == 2 ? handleValues<acme::plane>(a, v, [](acme::plane const & p) { return PL(p); })
            : handleValues<enve::triangleground>(a, v, [](enve::triangleground const & p) { return TG(p); });
    MC_OK(ok, "output", "%s did not return a handle of the expected class", what.c_str());
    if (!ok) return;
  } else {
    shape = a->dims.size() == 2 && (int)a->dims[0] == e.rows && (int)a->dims[1] == e.cols && (e.v.size() == 1 || a->cls == mxDOUBLE_CLASS);
    MC_OK(shape, "output", "%s returned a %zux%zu %s instead of %dx%d", what.c_str(), a->dims[0], a->dims[1], mxGetClassName(a), e.rows, e.cols);
    if (!shape) return;
    if (e.v.size() == 1) v = {mxGetScalar(a)}; else v.assign((double *)a->data, (double *)a->data + e.v.size());
  }
  for (size_t i = 0; i < e.v.size(); ++i)
    if (!same(v[i], e.v[i])) { MC_OK(false, "output", "%s: value %zu is %.17g, the library gives %.17g", what.c_str(), i, v[i], e.v[i]); return; }
  mc::S().checks++;
  uint64_t h = mc::hs(what); for (double d : v) h = mc::mixd(h, d); mc::outcome(h);
}
static const double YS[] = {-0.12, -0.05, 0.0, 0.031, 0.09, 0.2};
static void q(O const & o, std::string const & cmd, Exp const & e, mxArray * arg = nullptr, std::string const & txt = "")
{
  Args a = {mx::str(cmd), H(o)}; if (arg) a.push_back(arg);
  compare(std::string(KN[o->k]) + "('" + cmd + "'" + (arg ? ", " + txt : "") + ")", call(o->k, 1, a), e);
}
// a query which the library may refuse by throwing
static void qt(O const & o, std::string const & cmd, std::function<double()> get, double y)
{
  double v = 0; bool thrown = false; try { v = get(); } catch (std::exception const &) { thrown = true; }
  if (!thrown) { q(o, cmd, S(v), mx::num(y), mc::fmt("%g", y)); return; }
  MC_OK(!call(o->k, 1, {mx::str(cmd), H(o), mx::num(y)}).ok, "accepted", "%s('%s', %g) was accepted although the library refuses it", KN[o->k], cmd.c_str(), y);
}
static uint64_t sig(O const & o)
{
  uint64_t h = o->k;
  if (o->k == FLAT) { for (double d : PL(o->f->layingPlane()).v) h = mc::mixd(h, d); h = mc::mixd(h, o->f->friction()); }
  if (o->k == SHELL) { h = mc::mix(h, o->s->size()); for (double d : cm(o->s->transformation())) h = mc::mixd(h, d); if (o->setup) { double d; o->s->contactDepth(d); h = mc::mixd(h, d); o->s->contactArea(d); h = mc::mixd(h, d); } }
  if (o->k == MESH) h = mc::mix(h, o->m->size());
  if (o->k == TRI) for (double d : TG(*o->t).v) h = mc::mixd(h, d);
  return h;
}
static void check(O const & o)
{
  mc::state(sig(o));
  if (o->k == FLAT) {
    auto & f = *o->f; q(o, "getOrigin", PT(f.origin())); q(o, "getNormal", V(f.acme::plane::normal())); q(o, "getPlane", PL(f.layingPlane()));
    q(o, "getFriction", S(f.friction())); q(o, "isDegenerated", S(f.isDegenerated()));
    compare("mex_flat('isApprox')", call(FLAT, 1, {mx::str("isApprox"), H(o), H(o)}), S(f.isApprox(f)));
  } else if (o->k == TRI) {
    auto & t = *o->t; q(o, "getID", S(t.id())); q(o, "getFriction", S(t.friction())); q(o, "normal", V(t.normal()));
    acme::triangle const & tt = t; q(o, "getVertex1", PT(tt.vertex(0))); q(o, "getVertex2", PT(tt.vertex(1))); q(o, "getVertex3", PT(tt.vertex(2)));
  } else if (o->k == MESH) {
    auto & m = *o->m; q(o, "size", S(m.size()));
    for (size_t i = 0; i < m.size(); ++i) {
      auto const & t = *m.ptrTriangleground(i); q(o, "getTriangleground", TG(t), mx::num(i + 1), "I");
      Exp e{3, 3, {}}; for (int k = 0; k < 3; ++k) for (int c = 0; c < 3; ++c) e.v.push_back(t.vertex(k)[c]);
      q(o, "getTrianglegroundVertices", e, mx::num(i + 1, i % 2 ? mxINT32_CLASS : mxDOUBLE_CLASS), "I");
    }
  } else {
    auto & s = *o->s;
    q(o, "size", S(s.size())); q(o, "surfaceMaxRadius", S(s.surfaceMaxRadius())); q(o, "surfaceMaxWidth", S(s.surfaceMaxWidth())); q(o, "surfaceWidth", S(s.surfaceWidth()));
    for (double y : YS) {
      std::string t = mc::fmt("%g", y);
      q(o, "checkWidthBound", S(s.checkWidthBound(y)), mx::num(y), t);
      qt(o, "surfaceRadius", [&] { return s.surfaceRadius(y); }, y); qt(o, "surfaceDerivative", [&] { return s.surfaceDerivative(y); }, y); qt(o, "surfaceAngle", [&] { return s.surfaceAngle(y); }, y);
    }
    q(o, "translation", V(s.translation())); q(o, "x", V(s.x())); q(o, "y", V(s.y())); q(o, "z", V(s.z()));
    acme::vec3 v; s.eulerAngles(v); q(o, "eulerAngles", V(v));
    Exp r{3, 3, {}}; acme::mat3 R = s.rotation(); for (int c = 0; c < 3; ++c) for (int i = 0; i < 3; ++i) r.v.push_back(R(i, c)); q(o, "rotation", r);
    q(o, "transformation", Exp{4, 4, cm(s.transformation())});
    double d; acme::point p; acme::affine A; A.matrix().setZero();
    if (o->setup) {
      s.contactPoint(p); q(o, "contactPointAvg", PT(p)); s.contactNormal(v); q(o, "contactNormalAvg", V(v)); s.contactDepth(d); q(o, "contactDepthAvg", S(d));
      s.contactFriction(d); q(o, "contactFrictionAvg", S(d)); s.contactArea(d); q(o, "contactAreaAvg", S(d)); s.contactVolume(d); q(o, "contactVolumeAvg", S(d));
      s.contactPointAffine(A); q(o, "contactPointAffineAvg", Exp{4, 4, cm(A)}); s.relativeAngles(v); q(o, "relativeAnglesAvg", V(v));
    }
    for (size_t i = 0; i < s.size(); ++i) {
      auto I = [&]() { return mx::num(i + 1, i % 3 == 0 ? mxDOUBLE_CLASS : i % 3 == 1 ? mxINT32_CLASS : mxUINT8_CLASS); }; std::string t = mc::fmt("%zu", i + 1);
      q(o, "ribRadius", S(s.ribRadius(i)), I(), t); q(o, "ribCenter", PT(s.ribCenter(i)), I(), t); q(o, "ribWidth", S(s.ribWidth(i)), I(), t); q(o, "ribAngle", S(s.ribAngle(i)), I(), t);
      if (!o->setup) continue;
      s.contactPoint(i, p); q(o, "contactPointRib", PT(p), I(), t); s.contactNormal(i, v); q(o, "contactNormalRib", V(v), I(), t); s.contactDepth(i, d); q(o, "contactDepthRib", S(d), I(), t);
      s.contactFriction(i, d); q(o, "contactFrictionRib", S(d), I(), t); s.contactArea(i, d); q(o, "contactAreaRib", S(d), I(), t); s.contactVolume(i, d); q(o, "contactVolumeRib", S(d), I(), t);
      s.contactPointAffine(i, A); q(o, "contactPointAffineRib", Exp{4, 4, cm(A)}, I(), t); s.relativeAngles(i, v); q(o, "relativeAnglesRib", V(v), I(), t);
    }
  }
}
static void locks(long points = 0)
{ MC_OK(mx::locks == liveHandles + points, "lock", "the lock count is %ld with %ld objects alive", mx::locks, liveHandles + points); }

// ---------------------------------------------------------------- construction
struct ShellPar { double n, rx, m_x, ry, m_y, ly; };
static const ShellPar SP[] = {{3, 0.31, 9, 0.11, 6, 0.1}, {1, 0.25, 2, 0.2, 4, 0.08}, {6, 0.3, 4, 0.15, 2, 0.12}};
static const P3 FO[] = {{0.1, -0.2, 0.02}, {0, 0, 0}, {3, 1, -0.4}}, FN[] = {{0.1, 0.05, 2}, {0, 0, 1}, {-0.2, 0.3, 0.9}};
static const double FM[] = {0.7, 1, 0};
static O mkFlat(int i)
{
  O o = std::make_shared<Obj>(); o->k = FLAT; Res r;
  if (i < 0) { r = call(FLAT, 1, {mx::str("new")}); o->f = std::make_shared<enve::ground::flat>(); }
  else { r = call(FLAT, 1, {mx::str("new"), mx::num(FM[i]), V3(FO[i]), V3(FN[i])}); o->f = std::make_shared<enve::ground::flat>(FM[i], ap(FO[i]), av(FN[i])); }
  MC_OK(take(o, r), "refused", "mex_flat('new') gave no object: %s", r.err.c_str()); return o;
}
static O mkShell(int i, mxClassID k = mxDOUBLE_CLASS)
{
  O o = std::make_shared<Obj>(); o->k = SHELL; auto & p = SP[i];
  Res r = call(SHELL, 1, {mx::str("new"), mx::num(p.n, k), mx::num(p.rx), mx::num(p.m_x), mx::num(p.ry), mx::num(p.m_y), mx::num(p.ly)});
  o->s = std::make_shared<enve::shell>((int)p.n, p.rx, p.m_x, p.ry, p.m_y, p.ly);
  MC_OK(take(o, r), "refused", "mex_shell('new') gave no object: %s", r.err.c_str()); return o;
}
static const P3 TV[3][3] = {{{0, 0, 0}, {1, 0, 0.1}, {0.2, 1, 0}}, {{-1, 2, 3}, {4, 2.5, 3.5}, {0, 5, 3.25}}, {{0.5, 0, 0}, {0, -0.5, 0.75}, {1, 1, 1}}};
static const int TI[] = {7, -3, 100}; static const double TM[] = {0.8, 0, 1.5};
static mxClassID idClass(int i) { return i == 1 ? mxINT8_CLASS : i == 2 ? mxUINT8_CLASS : mxDOUBLE_CLASS; }
static O mkTri(int i)
{
  O o = std::make_shared<Obj>(); o->k = TRI; Res r;
  if (i < 0) { r = call(TRI, 1, {mx::str("new")}); o->t = std::make_shared<enve::triangleground>(0, 0.0, acme::NAN_POINT, acme::NAN_POINT, acme::NAN_POINT); }
  else if (i == 2) {
    Args a = {mx::str("new"), mx::num(TI[i], idClass(i)), mx::num(TM[i])}; for (auto const & v : TV[i]) for (double x : v) a.push_back(mx::num(x));
    r = call(TRI, 1, a); o->t = std::make_shared<enve::triangleground>(TI[i], TM[i], ap(TV[i][0]), ap(TV[i][1]), ap(TV[i][2]));
  }
  else { r = call(TRI, 1, {mx::str("new"), mx::num(TI[i], idClass(i)), mx::num(TM[i]), V3(TV[i][0]), V3(TV[i][1]), V3(TV[i][2])}); o->t = std::make_shared<enve::triangleground>(TI[i], TM[i], ap(TV[i][0]), ap(TV[i][1]), ap(TV[i][2])); }
  MC_OK(take(o, r), "refused", "mex_triangleground('new') gave no object: %s", r.err.c_str()); return o;
}
static const Pose MP = {0.03, -0.02, 0.01, 0.4, 0.05, 0.02};
static void files()
{
  std::ofstream("a.rdf") << "[NODES]\n0 -1 -1 0\n1 1 -1 0.02\n2 1 1 0\n3 -1 1 0.03\n4 0.1 0.05 0.08\n[ELEMENTS]\n0 1 4 0.9\n1 2 4 0.8\n2 3 4 0.7\n3 0 4 0.6\n";
  std::ofstream("b.obj") << "v -1 -1 0.05\nv 1 -1 0.02\nv 1 1 0\nv -1 1 0.01\nf 1 2 3\nf 1 3 4\n";
  std::ofstream("bad.rdf") << "[NODES]\n0 1 2\n";
}
static O mkMesh(int i)
{
  O o = std::make_shared<Obj>(); o->k = MESH; o->m = std::make_shared<enve::ground::mesh>(); Res r;
  switch (i) {
    case 0: r = call(MESH, 1, {mx::str("new"), mx::str("./a.rdf")}); o->m->load("./a.rdf"); break;
    case 1: r = call(MESH, 1, {mx::str("new"), mx::str("./b.obj"), mx::num(0.75)}); o->m->load("./b.obj", 0.75); break;
    case 2: r = call(MESH, 1, {mx::str("new"), mx::str("./a.rdf"), M4(aff(MP))}); o->m->load("./a.rdf", aff(MP)); break;
    case 3: r = call(MESH, 1, {mx::str("new"), mx::str("./b.obj"), mx::num(0.5), M4(aff(MP))}); o->m->load("./b.obj", 0.5, aff(MP)); break;
    default: r = call(MESH, 1, {mx::str("new")});
  }
  MC_OK(take(o, r), "refused", "mex_mesh('new') gave no object: %s", r.err.c_str()); return o;
}
static void del(O & o)
{
  if (!o || !o->h) return;
  Res r = call(o->k, 0, {mx::str("delete"), H(o)});
  MC_OK(r.ok, "refused", "%s('delete') was refused: %s", KN[o->k], r.err.c_str());
  if (r.ok) --liveHandles; o.reset();
}
// runs a history; when it leaves memory behind, runs it once more to tell a leak from one-time initialisation
static void balanced(std::function<void()> const & body, std::string const & what)
{
  size_t before = __sanitizer_get_current_allocated_bytes(); body(); mx::clear();
  size_t after = __sanitizer_get_current_allocated_bytes();
  if (after > before) {
    auto & s = mc::S(); size_t nv = s.violations.size(); (void)nv;
    for (int k = 0; k < 2; ++k) { before = __sanitizer_get_current_allocated_bytes(); body(); mx::clear(); after = __sanitizer_get_current_allocated_bytes(); }
    MC_OK(after <= before, "leak", "%zu bytes stay allocated after every object was deleted (%s)", after - before, what.c_str());
  }
}
// states and outcomes are recorded by the caller of balanced, once, so that the bookkeeping does not look like a leak
static std::unordered_set<uint64_t> reserveOnce() { mc::S().states.reserve(1 << 16); mc::S().outcomes.reserve(1 << 20); return {}; }

// ---------------------------------------------------------------- A: shell histories
static const Pose SPOSE[] = {{0.02, 0.01, 0.24, 0.3, 0.04, 0.5}, {-0.1, 0.03, 0.27, -1, -0.06, 2}, {0, 0, 5, 0, 0, 0}};
struct World { O s, f, g, m; };
static const int NSH = 15;
static std::string shName(int o)
{
  static char const * n[] = {"resize 1", "resize 4", "translate", "rotate about z", "rotate about a long axis", "transform A", "transform B", "setupFlat(f, A, geometric)", "setupFlat(g, B, sampling)",
    "setupMesh(A, geometric)", "setupMesh(B, sampling)", "setupMesh(A, unknown method)", "transform by a non-rigid matrix", "move ground f", "setupFlat(f, lifted, sampling)"};
  return n[o];
}
// the library call and the MEX call; both must agree on success
static void both(Res const & r, std::function<void()> const & lib, std::string const & what)
{
  bool ok = true; try { lib(); } catch (std::exception const &) { ok = false; }
  MC_OK(r.ok == ok, "refused", "%s was %s, the library %s it: %s", what.c_str(), r.ok ? "accepted" : "refused", ok ? "accepts" : "refuses", r.err.c_str());
}
static void setupCmd(World & w, char const * cmd, O const & g, Pose const & p, char const * method)
{
  Res r = call(SHELL, 1, {mx::str(cmd), H(w.s), H(g), M4(aff(p)), mx::str(method)}); bool out = false, ok = true;
  try { out = g->k == FLAT ? w.s->s->setup(*g->f, aff(p), method) : w.s->s->setup(*g->m, aff(p), method); } catch (std::exception const &) { ok = false; }
  MC_OK(r.ok == ok, "refused", "mex_shell('%s', '%s') was %s, the library %s it", cmd, method, r.ok ? "accepted" : "refused", ok ? "accepts" : "refuses");
  if (r.ok && ok) { MC_OK(mxIsLogicalScalar(r.out[0]) && mxIsLogicalScalarTrue(r.out[0]) == out, "output", "mex_shell('%s') does not return what the library returns (%d)", cmd, out); w.s->setup = true; if (out) mc::nontrivial(); }
  else w.s->setup = false;
}
static void shOp(World & w, int o)
{
  auto & s = *w.s->s; acme::affine A = aff(SPOSE[0]), B = aff(SPOSE[1]), N; N.matrix() << 1, 0.5, 0, 1, 0, 2, 0, 2, 0.1, 0, 1, 3, 0, 0, 0, 1;
  Args a = {mx::str(""), H(w.s)};
  auto run = [&](char const * c, Args rest, std::function<void()> lib) { Args in = {mx::str(c), H(w.s)}; in.insert(in.end(), rest.begin(), rest.end()); both(call(SHELL, 0, in), lib, std::string("mex_shell('") + c + "')"); };
  switch (o) {
    case 0: run("resize", {mx::num(1)}, [&] { s.resize(1); }); w.s->setup = false; break;
    case 1: run("resize", {mx::num(4, mxINT16_CLASS)}, [&] { s.resize(4); }); w.s->setup = false; break;
    case 2: run("translate", {V3({0.1, -0.2, 0.3})}, [&] { s.translate(acme::vec3(0.1, -0.2, 0.3)); }); break;
    case 3: run("rotate", {mx::num(0.7), V3({0, 0, 1})}, [&] { s.rotate(0.7, acme::vec3(0, 0, 1)); }); break;
    case 4: run("rotate", {mx::num(-0.4, mxSINGLE_CLASS), V3({1, 2, -2})}, [&] { s.rotate((double)-0.4f, acme::vec3(1, 2, -2)); }); break;
    case 5: run("transform", {M4(A)}, [&] { s.transform(A); }); break;
    case 6: run("transform", {M4(B)}, [&] { s.transform(B); }); break;
    case 7: setupCmd(w, "setupFlat", w.f, SPOSE[0], "geometric"); break;
    case 8: setupCmd(w, "setupFlat", w.g, SPOSE[1], "sampling"); break;
    case 9: setupCmd(w, "setupMesh", w.m, SPOSE[0], "geometric"); break;
    case 10: setupCmd(w, "setupMesh", w.m, SPOSE[1], "sampling"); break;
    case 11: setupCmd(w, "setupMesh", w.m, SPOSE[0], "guess"); break;
    case 12: run("transform", {M4(N)}, [&] { s.transform(N); }); break;
    case 13: both(call(FLAT, 0, {mx::str("setOrigin"), H(w.f), V3({0, 0, 0.05})}), [&] { w.f->f->origin() = acme::point(0, 0, 0.05); }, "mex_flat('setOrigin')"); break;
    case 14: setupCmd(w, "setupFlat", w.f, SPOSE[2], "sampling"); break;
  }
}
static void runShell(int sp, std::vector<int> const & seq, bool all)
{
  World w; w.s = mkShell(sp, sp == 1 ? mxUINT16_CLASS : mxDOUBLE_CLASS); w.f = mkFlat(0); w.g = mkFlat(1); w.m = mkMesh(sp % 2);
  if (w.s->h && w.f->h && w.g->h && w.m->h) {
    for (size_t i = 0; i < seq.size(); ++i) { shOp(w, seq[i]); if (all || i + 1 == seq.size()) check(w.s); }
    // the pose check is a query, too
    acme::affine A = aff(SPOSE[0]), N = A; N.matrix()(0, 1) += 0.3;
    compare("mex_shell('checkTransformation')", call(SHELL, 1, {mx::str("checkTransformation"), H(w.s), M4(A)}), S(w.s->s->checkTransformation(A)));
    compare("mex_shell('checkTransformation')", call(SHELL, 1, {mx::str("checkTransformation"), H(w.s), M4(N)}), S(w.s->s->checkTransformation(N)));
    check(w.f); locks();
  }
  del(w.s); del(w.m); del(w.g); del(w.f); locks();
}
// ---------------------------------------------------------------- B: flat, triangleground and mesh histories
static const int NFL = 11, NTR = 11, NME = 8;
struct Two { O a, b; };
static std::string flName(int o)
{ static char const * n[] = {"setOrigin 1", "setOrigin 2", "setNormal 1", "setNormal 2", "setFriction 0.25", "setFriction 2", "copy other", "other copies", "setPlane from other", "other setPlane", "copy itself"}; return n[o]; }
static void flOp(Two & w, int o)
{
  auto run = [&](O const & x, char const * c, Args rest, std::function<void()> lib) { Args in = {mx::str(c), H(x)}; in.insert(in.end(), rest.begin(), rest.end()); both(call(FLAT, 0, in), lib, std::string("mex_flat('") + c + "')"); };
  auto plane = [&](O const & x, O const & y) {
    Res r = call(FLAT, 1, {mx::str("getPlane"), H(y)});
    if (r.ok) { mxArray const * p = r.out[0]; run(x, "setPlane", {mx::dup(p)}, [&] { acme::plane c(y->f->layingPlane()); x->f->layingPlane() = c; }); mxArray const * q = p; try { utils::mex_destroy_object<acme::plane>(q); } catch (MexError const &) { MC_OK(false, "output", "mex_flat('getPlane') did not return a plane"); } }
  };
  switch (o) {
    case 0: run(w.a, "setOrigin", {V3({1, 2, 3})}, [&] { w.a->f->origin() = acme::point(1, 2, 3); }); break;
    case 1: run(w.a, "setOrigin", {V3({-0.5, 0.25, 0})}, [&] { w.a->f->origin() = acme::point(-0.5, 0.25, 0); }); break;
    case 2: run(w.a, "setNormal", {V3({0, 0.6, 0.8})}, [&] { w.a->f->normal() = acme::vec3(0, 0.6, 0.8); }); break;
    case 3: run(w.a, "setNormal", {V3({0.28, 0, 0.96})}, [&] { w.a->f->normal() = acme::vec3(0.28, 0, 0.96); }); break;
    case 4: run(w.a, "setFriction", {mx::num(0.25)}, [&] { w.a->f->friction() = 0.25; }); break;
    case 5: run(w.b, "setFriction", {mx::num(2, mxINT32_CLASS)}, [&] { w.b->f->friction() = 2; }); break;
    case 6: run(w.a, "copy", {H(w.b)}, [&] { w.a->f->copy(*w.b->f); }); break;
    case 7: run(w.b, "copy", {H(w.a)}, [&] { w.b->f->copy(*w.a->f); }); break;
    case 8: plane(w.a, w.b); break;
    case 9: plane(w.b, w.a); break;
    case 10: run(w.a, "copy", {H(w.a)}, [&] { w.a->f->copy(*w.a->f); }); break;
  }
}
static std::string trName(int o) { static char const * n[] = {"copy other", "other copies", "copy itself", "setVertex1", "setVertex2", "setVertex3", "other setVertex2", "getVertex1 of other into setVertex3", "setID", "setFriction", "other setFriction"}; return n[o]; }
static acme::point vtx(enve::triangleground const & t, int i) { acme::triangle const & c = t; return c.vertex(i); }
static void setVertex(O const & x, int i, acme::point const & v)
{
  acme::point c[3] = {vtx(*x->t, 0), vtx(*x->t, 1), vtx(*x->t, 2)}; c[i] = v; int id = x->t->id(); double mu = x->t->friction();
  x->t->copy(enve::triangleground(id, mu, c));
}
static void rebuild(O const & x, int id, double mu)
{ acme::point c[3] = {vtx(*x->t, 0), vtx(*x->t, 1), vtx(*x->t, 2)}; x->t->copy(enve::triangleground(id, mu, c)); }
static void trOp(Two & w, int o)
{
  auto cp = [&](O const & x, O const & y) { both(call(TRI, 0, {mx::str("copy"), H(x), H(y)}), [&] { x->t->copy(*y->t); }, "mex_triangleground('copy')"); };
  auto sv = [&](O const & x, int i, acme::point const & v) {
    acme::point * p = new acme::point(v); mxArray * h = utils::mex_convert_ptr_to_mx<acme::point>(p);
    both(call(TRI, 0, {mx::str(mc::fmt("setVertex%d", i + 1)), H(x), mx::dup(h)}), [&] { setVertex(x, i, v); }, "mex_triangleground('setVertex')");
    mxArray const * c = h; utils::mex_destroy_object<acme::point>(c);
  };
  switch (o) {
    case 0: cp(w.a, w.b); break; case 1: cp(w.b, w.a); break; case 2: cp(w.a, w.a); break;
    case 3: sv(w.a, 0, acme::point(-1, 0.5, 0.25)); break; case 4: sv(w.a, 1, acme::point(3, 0, 0.5)); break; case 5: sv(w.a, 2, acme::point(0.25, 4, -0.5)); break;
    case 6: sv(w.b, 1, acme::point(2, -1, 1)); break;
    case 8: both(call(TRI, 0, {mx::str("setID"), H(w.a), mx::num(-12, mxINT16_CLASS)}), [&] { rebuild(w.a, -12, w.a->t->friction()); }, "mex_triangleground('setID')"); break;
    case 9: both(call(TRI, 0, {mx::str("setFriction"), H(w.a), mx::num(0.375)}), [&] { rebuild(w.a, w.a->t->id(), 0.375); }, "mex_triangleground('setFriction')"); break;
    case 10: both(call(TRI, 0, {mx::str("setFriction"), H(w.b), mx::num(1.25)}), [&] { rebuild(w.b, w.b->t->id(), 1.25); }, "mex_triangleground('setFriction')"); break;
    case 7: {
      Res r = call(TRI, 1, {mx::str("getVertex1"), H(w.b)}); if (!r.ok) break; acme::point v = vtx(*w.b->t, 0);
      both(call(TRI, 0, {mx::str("setVertex3"), H(w.a), mx::dup(r.out[0])}), [&] { setVertex(w.a, 2, v); }, "mex_triangleground('setVertex3')");
      mxArray const * c = r.out[0]; utils::mex_destroy_object<acme::point>(c); break;
    }
  }
}
static std::string meName(int o) { static char const * n[] = {"copy other", "other copies", "copy itself", "load rdf", "load obj", "other loads rdf", "other loads obj", "delete and recreate other"}; return n[o]; }
static void meOp(Two & w, int o)
{
  auto cp = [&](O const & x, O const & y) { both(call(MESH, 0, {mx::str("copy"), H(x), H(y)}), [&] { x->m->copy(*y->m); }, "mex_mesh('copy')"); };
  auto rdf = [&](O const & x) { both(call(MESH, 0, {mx::str("load"), H(x), mx::str("./a.rdf")}), [&] { x->m->load("./a.rdf"); }, "mex_mesh('load', rdf)"); };
  auto obj = [&](O const & x) { both(call(MESH, 0, {mx::str("load"), H(x), mx::str("./b.obj"), mx::num(0.3)}), [&] { x->m->load("./b.obj", 0.3); }, "mex_mesh('load', obj)"); };
  switch (o) { case 0: cp(w.a, w.b); break; case 1: cp(w.b, w.a); break; case 2: cp(w.a, w.a); break; case 3: rdf(w.a); break; case 4: obj(w.a); break; case 5: rdf(w.b); break; case 6: obj(w.b); break; case 7: del(w.b); w.b = mkMesh(3); break; }
}
template <class Op> static void runTwo(O a, O b, std::vector<int> const & seq, Op op)
{
  Two w{a, b};
  if (a->h && b->h) {
    check(w.a); check(w.b);
    for (int o : seq) { op(w, o); check(w.a); check(w.b); }
    if (w.a->k == FLAT) compare("mex_flat('isApprox')", call(FLAT, 1, {mx::str("isApprox"), H(w.a), H(w.b)}), S(w.a->f->isApprox(*w.b->f)));
    locks(); mc::nontrivial();
  }
  del(w.a); del(w.b); locks();
}
template <class F> static void sequences(int n, int depth, F f)
{
  std::vector<int> s(depth, 0);
  while (true) { f(s); int i = depth - 1; while (i >= 0 && ++s[i] == n) s[i--] = 0; if (i < 0) return; }
}
// ---------------------------------------------------------------- C: lifetimes of several objects
static const int SLOTS = 3;
static void lifeOp(std::vector<O> & sl, int o)
{
  if (o < 4) { // create in the first free slot
    for (auto & x : sl) if (!x) { x = o == 0 ? mkFlat(0) : o == 1 ? mkShell(1) : o == 2 ? mkTri(0) : mkMesh(1); if (!x->h) x.reset(); return; }
    return;
  }
  o -= 4;
  if (o < SLOTS) { if (sl[o]) del(sl[o]); return; }
  o -= SLOTS;
  O & x = sl[o]; if (!x) return;
  if (x->k == FLAT) both(call(FLAT, 0, {mx::str("setFriction"), H(x), mx::num(0.125)}), [&] { x->f->friction() = 0.125; }, "mex_flat('setFriction')");
  if (x->k == SHELL) both(call(SHELL, 0, {mx::str("resize"), H(x), mx::num(2)}), [&] { x->s->resize(2); }, "mex_shell('resize')");
  for (auto & y : sl) if (y && y != x && y->k == x->k) { // copy from the first other object of the kind
    if (x->k == TRI) both(call(TRI, 0, {mx::str("copy"), H(x), H(y)}), [&] { x->t->copy(*y->t); }, "mex_triangleground('copy')");
    if (x->k == MESH) both(call(MESH, 0, {mx::str("copy"), H(x), H(y)}), [&] { x->m->copy(*y->m); }, "mex_mesh('copy')");
    break;
  }
}
// ---------------------------------------------------------------- D: argument discipline
enum Ty { FH, MH, SH, TH, PTH, PLH, SC, IN, IX, V3T, M4T, STR, FILLER };
struct Cmd { Kind k; char const * name; std::vector<Ty> a; bool out; std::set<int> counts; };
static std::vector<Cmd> CMDS = {
  {FLAT, "new", {SC, V3T, V3T}, true, {1, 4}}, {FLAT, "delete", {FH}, false, {2}}, {FLAT, "getOrigin", {FH}, true, {2}}, {FLAT, "setOrigin", {FH, V3T}, false, {3}}, {FLAT, "getNormal", {FH}, true, {2}},
  {FLAT, "setNormal", {FH, V3T}, false, {3}}, {FLAT, "getPlane", {FH}, true, {2}}, {FLAT, "setPlane", {FH, PLH}, false, {3}}, {FLAT, "getFriction", {FH}, true, {2}}, {FLAT, "setFriction", {FH, SC}, false, {3}},
  {FLAT, "isDegenerated", {FH}, true, {2}}, {FLAT, "isApprox", {FH, FH}, true, {3}}, {FLAT, "copy", {FH, FH}, false, {3}},
  {TRI, "new", {IN, SC, V3T, V3T, V3T}, true, {1, 6, 12}}, {TRI, "delete", {TH}, false, {2}}, {TRI, "getID", {TH}, true, {2}}, {TRI, "getFriction", {TH}, true, {2}}, {TRI, "getVertex1", {TH}, true, {2}},
  {TRI, "getVertex2", {TH}, true, {2}}, {TRI, "getVertex3", {TH}, true, {2}}, {TRI, "copy", {TH, TH}, false, {3}}, {TRI, "normal", {TH}, true, {2}},
  {TRI, "setID", {TH, IN}, false, {3}}, {TRI, "setFriction", {TH, SC}, false, {3}}, {TRI, "setVertex1", {TH, PTH}, false, {3}}, {TRI, "setVertex2", {TH, PTH}, false, {3}}, {TRI, "setVertex3", {TH, PTH}, false, {3}},
  {MESH, "new", {STR, SC, M4T}, true, {1, 2, 3, 4}}, {MESH, "delete", {MH}, false, {2}}, {MESH, "getTriangleground", {MH, IX}, true, {3}}, {MESH, "getTrianglegroundVertices", {MH, IX}, true, {3}}, {MESH, "size", {MH}, true, {2}},
  {MESH, "copy", {MH, MH}, false, {3}}, {MESH, "load", {MH, STR, SC}, false, {3, 4}},
  {SHELL, "new", {IN, SC, SC, SC, SC, SC}, true, {7}}, {SHELL, "delete", {SH}, false, {2}}, {SHELL, "resize", {SH, IN}, false, {3}}, {SHELL, "size", {SH}, true, {2}}, {SHELL, "surfaceMaxRadius", {SH}, true, {2}},
  {SHELL, "surfaceMaxWidth", {SH}, true, {2}}, {SHELL, "surfaceWidth", {SH}, true, {2}}, {SHELL, "checkWidthBound", {SH, SC}, true, {3}}, {SHELL, "surfaceRadius", {SH, SC}, true, {3}}, {SHELL, "surfaceDerivative", {SH, SC}, true, {3}},
  {SHELL, "surfaceAngle", {SH, SC}, true, {3}}, {SHELL, "ribRadius", {SH, IX}, true, {3}}, {SHELL, "ribCenter", {SH, IX}, true, {3}}, {SHELL, "ribWidth", {SH, IX}, true, {3}}, {SHELL, "ribAngle", {SH, IX}, true, {3}},
  {SHELL, "translate", {SH, V3T}, false, {3}}, {SHELL, "translation", {SH}, true, {2}}, {SHELL, "rotate", {SH, SC, V3T}, false, {4}}, {SHELL, "rotation", {SH}, true, {2}}, {SHELL, "transform", {SH, M4T}, false, {3}},
  {SHELL, "transformation", {SH}, true, {2}}, {SHELL, "checkTransformation", {SH, M4T}, true, {3}}, {SHELL, "x", {SH}, true, {2}}, {SHELL, "y", {SH}, true, {2}}, {SHELL, "z", {SH}, true, {2}}, {SHELL, "eulerAngles", {SH}, true, {2}},
  {SHELL, "setupFlat", {SH, FH, M4T, STR}, true, {5}}, {SHELL, "setupMesh", {SH, MH, M4T, STR}, true, {5}},
  {SHELL, "contactPointAvg", {SH}, true, {2}}, {SHELL, "contactPointRib", {SH, IX}, true, {3}}, {SHELL, "contactNormalAvg", {SH}, true, {2}}, {SHELL, "contactNormalRib", {SH, IX}, true, {3}}, {SHELL, "contactDepthAvg", {SH}, true, {2}},
  {SHELL, "contactDepthRib", {SH, IX}, true, {3}}, {SHELL, "contactFrictionAvg", {SH}, true, {2}}, {SHELL, "contactFrictionRib", {SH, IX}, true, {3}}, {SHELL, "contactAreaAvg", {SH}, true, {2}}, {SHELL, "contactAreaRib", {SH, IX}, true, {3}},
  {SHELL, "contactVolumeAvg", {SH}, true, {2}}, {SHELL, "contactVolumeRib", {SH, IX}, true, {3}}, {SHELL, "contactPointAffineAvg", {SH}, true, {2}}, {SHELL, "contactPointAffineRib", {SH, IX}, true, {3}},
  {SHELL, "relativeAnglesAvg", {SH}, true, {2}}, {SHELL, "relativeAnglesRib", {SH, IX}, true, {3}}};
static const int NIX = 2; // every object used for the argument checks has exactly two ribs / two triangles
struct Arena { O f, f2, m, s, t; mxArray const * point = nullptr, * plane = nullptr; uint64_t ph, lh; };
static mxArray * good(Arena const & a, Ty t, Kind k)
{
  switch (t) {
    case FH: return H(a.f); case MH: return H(a.m); case SH: return H(a.s); case TH: return H(a.t); case PTH: return mx::handle(a.ph); case PLH: return mx::handle(a.lh);
    case SC: return mx::num(0.05); case IN: case IX: return mx::num(2); case V3T: return V3({0.1, 0.2, 0.3}); case M4T: return M4(aff(SPOSE[0])); case STR: return mx::str(k == MESH ? "./b.obj" : "geometric"); default: return mx::num(1);
  }
}
static std::vector<std::pair<std::string, mxArray *>> bad(Arena const & a, Ty t)
{
  std::vector<std::pair<std::string, mxArray *>> v; auto add = [&](std::string n, mxArray * x) { v.push_back({n, x}); };
  auto filled = [&](mwSize r, mwSize c, mxClassID k) { return mx::make(r, c, k); };
  switch (t) {
    case FH: case MH: case SH: case TH: case PTH: case PLH:
      add("a double", mx::num(5)); add("a null handle", mx::handle(0)); add("two handles", mx::make(1, 2, mxUINT64_CLASS)); add("an empty uint64", mx::make(0, 0, mxUINT64_CLASS)); add("a string", mx::str("x")); add("a string of 8", mx::str("12345678")); add("an int64", mx::num(0, mxINT64_CLASS)); add("a logical", mx::logical(true));
      if (t != FH) add("a flat", H(a.f)); if (t != MH) add("a mesh", H(a.m)); if (t != SH) add("a shell", H(a.s)); if (t != TH) add("a triangleground", H(a.t)); if (t != PTH) add("a point", mx::handle(a.ph)); if (t != PLH) add("a plane", mx::handle(a.lh));
      { mxArray * c = t == FH ? H(a.f) : H(a.s); c->cplx = true; add("a complex handle", c); }
      break;
    case SC: add("1x2", mx::mat(1, 2, {1, 2})); add("2x1", mx::mat(2, 1, {1, 2})); add("empty", mx::make(0, 0, mxDOUBLE_CLASS)); add("0x1", mx::make(0, 1, mxDOUBLE_CLASS)); add("2x2", mx::mat(2, 2, {1, 2, 3, 4})); add("a string", mx::str("ab")); { mxArray * c = mx::num(1); c->dims = {1, 1, 1}; add("three dimensions", c); } break;
    case IX:
      add("0", mx::num(0)); add("one past the end", mx::num(NIX + 1)); add("-1", mx::num(-1)); add("int8(-1)", mx::num(-1, mxINT8_CLASS)); add("int32(-2)", mx::num(-2, mxINT32_CLASS)); add("2^32+1", mx::num(4294967297.0)); add("uint64 2^32+2", mx::num(4294967298.0, mxUINT64_CLASS)); add("1e9", mx::num(1e9)); // fall through
    case IN: add("1.5", mx::num(1.5)); add("single(1.5)", mx::num(1.5, mxSINGLE_CLASS)); add("NaN", mx::num(NAN)); add("1x2", mx::mat(1, 2, {1, 2})); add("2x1 int32", mx::make(2, 1, mxINT32_CLASS)); add("empty", mx::make(0, 0, mxDOUBLE_CLASS)); add("a string", mx::str("ab")); add("a logical", mx::logical(true)); break;
    case V3T:
      for (auto d : {std::pair<int, int>{1, 1}, {2, 1}, {4, 1}, {1, 3}, {3, 2}, {3, 3}, {0, 0}, {0, 1}, {3, 0}, {4, 4}, {2, 3}}) add(mc::fmt("%dx%d", d.first, d.second), filled(d.first, d.second, mxDOUBLE_CLASS));
      for (mxClassID k : {mxSINGLE_CLASS, mxINT32_CLASS, mxUINT8_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxINT64_CLASS}) { mxArray * x = filled(3, 1, k); add(std::string("3x1 ") + mxGetClassName(x), x); } break;
    case M4T:
      for (auto d : {std::pair<int, int>{1, 1}, {3, 3}, {4, 3}, {3, 4}, {4, 1}, {1, 4}, {5, 4}, {4, 5}, {16, 1}, {0, 0}, {4, 0}, {0, 4}, {4, 2}}) add(mc::fmt("%dx%d", d.first, d.second), filled(d.first, d.second, mxDOUBLE_CLASS));
      for (mxClassID k : {mxSINGLE_CLASS, mxINT32_CLASS, mxUINT8_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxINT64_CLASS}) { mxArray * x = filled(4, 4, k); add(std::string("4x4 ") + mxGetClassName(x), x); } break;
    case STR: add("a double", mx::num(1)); add("empty double", mx::make(0, 0, mxDOUBLE_CLASS)); add("a logical", mx::logical(true)); add("uint8", mx::num(65, mxUINT8_CLASS)); break;
    default: break;
  }
  return v;
}
static Arena arena()
{
  Arena a; a.f = mkFlat(0); a.f2 = mkFlat(1); a.m = mkMesh(1); a.t = mkTri(0); a.s = mkShell(1);
  call(SHELL, 0, {mx::str("resize"), H(a.s), mx::num(2)}); a.s->s->resize(2);
  World w; w.s = a.s; w.f = a.f; setupCmd(w, "setupFlat", a.f, SPOSE[0], "geometric");
  a.point = utils::mex_convert_ptr_to_mx<acme::point>(new acme::point(1, 2, 3)); a.plane = utils::mex_convert_ptr_to_mx<acme::plane>(new acme::plane(acme::point(1, 2, 3), acme::vec3(0, 0, 1)));
  a.ph = *(uint64_t *)mxGetData(a.point); a.lh = *(uint64_t *)mxGetData(a.plane);
  return a;
}
static void intact(Arena const & a, std::string const & what)
{ size_t n = mc::S().violations.size(); for (O const & o : {a.f, a.m, a.t, a.s}) check(o); if (mc::S().violations.size() > n) mc::fail("refused-changed", "%s changed an object although it was refused", what.c_str()); }
static void refused(Arena const & a, Cmd const & c, int nlhs, Args const & in, std::string const & how)
{
  long l = mx::locks; Res r = call(c.k, nlhs, in); std::string what = mc::fmt("%s('%s') with %s", KN[c.k], c.name, how.c_str());
  MC_OK(!r.ok, "accepted", "%s was accepted", what.c_str());
  if (r.ok) return; // the object may be gone now
  MC_OK(mx::locks == l || (r.err == "output not assigned"), "lock", "%s was refused but changed the lock count", what.c_str());
  mc::outcome(mc::hs(r.err)); (void)a;
}
static void discipline(Cmd const & c)
{
  Arena a = arena(); auto args = [&](size_t n) { Args v = {mx::str(c.name)}; for (size_t i = 0; i + 1 < n; ++i) v.push_back(i < c.a.size() ? good(a, c.a[i], c.k) : mx::num(1)); return v; };
  size_t full = c.a.size() + 1; int nl = c.out ? 1 : 0; bool lost = false; auto & vs = mc::S().vcount;
  auto accepted = [&] { return vs.count("accepted") ? vs["accepted"] : 0; };
  for (size_t n = 1; n <= full + 3 && !lost; ++n) if (!c.counts.count((int)n)) { long long b = accepted(); refused(a, c, nl, args(n), mc::fmt("%zu arguments", n)); if (accepted() != b) lost = true; }
  if (!lost) { long long b = accepted(); refused(a, c, 2, args(full), "2 outputs"); if (accepted() != b) lost = true; }
  for (size_t i = 0; i < c.a.size() && !lost; ++i) {
    size_t nb = bad(a, c.a[i]).size();
    for (size_t j = 0; j < nb && !lost; ++j) {
      if (c.k == MESH && (!strcmp(c.name, "new")) && c.a[i] != STR && full != 4) continue;
      Args v = args(full); auto x = bad(a, c.a[i])[j]; v[i + 1] = x.second; long long b = accepted();
      refused(a, c, nl, v, mc::fmt("argument %zu = %s", i + 2, x.first.c_str())); if (accepted() != b) lost = true;
    }
  }
  mc::nontrivial();
  if (!lost) {
    intact(a, c.name);
    // the same call with fitting arguments is accepted
    Res r = call(c.k, nl, args(full)); MC_OK(r.ok, "refused", "%s('%s') with fitting arguments was refused: %s", KN[c.k], c.name, r.err.c_str());
    if (r.ok && !strcmp(c.name, "delete")) { --liveHandles; (c.k == FLAT ? a.f : c.k == MESH ? a.m : c.k == SHELL ? a.s : a.t).reset(); }
    if (r.ok && !strcmp(c.name, "new")) { O o = std::make_shared<Obj>(); o->k = c.k; take(o, r); del(o); }
    if (r.ok && c.out && mxGetClassID(r.out[0]) == mxUINT64_CLASS && strcmp(c.name, "new")) {
      mxArray const * h = r.out[0];
      try { if (!strcmp(c.name, "getPlane")) utils::mex_destroy_object<acme::plane>(h); else if (!strcmp(c.name, "getTriangleground")) utils::mex_destroy_object<enve::triangleground>(h); else utils::mex_destroy_object<acme::point>(h); } catch (MexError const &) {}
    }
    locks(2);
    mxArray const * p = a.point, * l = a.plane; utils::mex_destroy_object<acme::point>(p); utils::mex_destroy_object<acme::plane>(l);
    if (a.f) del(a.f); if (a.f2) del(a.f2); if (a.m) del(a.m); if (a.t) del(a.t); if (a.s) del(a.s);
    locks();
  } else { liveHandles = 0; mx::locks = 0; }
  mx::clear();
}
static void commandNames(Kind k)
{
  Arena a = arena(); auto no = [&](Args in, char const * how) { for (int nl : {0, 1}) { Res r = call(k, nl, in); MC_OK(!r.ok, "accepted", "%s called with %s was accepted", KN[k], how); } };
  mxArray * h = k == FLAT ? H(a.f) : k == MESH ? H(a.m) : k == SHELL ? H(a.s) : H(a.t);
  no({}, "no arguments"); no({mx::num(1)}, "a number as command"); no({mx::make(0, 0, mxDOUBLE_CLASS)}, "an empty command"); no({mx::str("")}, "an empty string"); no({mx::str("nothing"), mx::dup(h)}, "an unknown command");
  no({mx::str("New")}, "'New'"); no({mx::str("delete ")}, "'delete '"); no({mx::dup(h)}, "a handle as command"); no({mx::str("siz"), mx::dup(h)}, "'siz'"); no({mx::logical(true), mx::dup(h)}, "a logical as command");
  intact(a, "unknown commands");
  if (k == MESH) {
    Res r = call(MESH, 1, {mx::str("new"), mx::str("./missing.rdf")}); MC_OK(!r.ok, "accepted", "mex_mesh('new') of a missing file was accepted");
    r = call(MESH, 1, {mx::str("new"), mx::str("./bad.rdf")}); MC_OK(!r.ok, "accepted", "mex_mesh('new') of a malformed file was accepted");
    r = call(MESH, 1, {mx::str("new"), mx::str("./missing.obj"), mx::num(1)}); MC_OK(!r.ok, "accepted", "mex_mesh('new') of a missing file was accepted");
    r = call(MESH, 0, {mx::str("load"), H(a.m), mx::str("./missing.rdf")}); MC_OK(!r.ok, "accepted", "mex_mesh('load') of a missing file was accepted");
  }
  if (k == SHELL) for (mxClassID c : {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS})
    for (int n : {1, 2, 7}) {
      both(call(SHELL, 0, {mx::str("resize"), H(a.s), mx::num(n, c)}), [&] { a.s->s->resize(n); }, "mex_shell('resize')"); a.s->setup = false;
      q(a.s, "size", S(n)); for (int i = 0; i < n; ++i) q(a.s, "ribRadius", S(a.s->s->ribRadius(i)), mx::num(i + 1, c), mc::fmt("%d", i + 1));
    }
  if (k == TRI) for (mxClassID c : {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS})
    for (int id : {0, 5, 127, -1, -128, 200, -300, 40000}) {
      bool uns = c == mxUINT8_CLASS || c == mxUINT16_CLASS || c == mxUINT32_CLASS || c == mxUINT64_CLASS; int bits = 8 * (int)mx::esize(c);
      if (c != mxDOUBLE_CLASS && c != mxSINGLE_CLASS && ((uns && id < 0) || (bits <= 16 && (id >= (1 << (bits - (uns ? 0 : 1))) || id < -(1 << (bits - 1)))))) continue;
      O o = std::make_shared<Obj>(); o->k = TRI;
      Res r = call(TRI, 1, {mx::str("new"), mx::num(id, c), mx::num(1), V3({0, 0, 0}), V3({1, 0, 0}), V3({0, 1, 0})});
      if (take(o, r)) { q(o, "getID", S(id)); del(o); } else MC_OK(false, "refused", "mex_triangleground('new') refused the id %d", id);
    }
  mc::nontrivial();
  mxArray const * p = a.point, * l = a.plane; utils::mex_destroy_object<acme::point>(p); utils::mex_destroy_object<acme::plane>(l);
  del(a.f); del(a.f2); del(a.m); del(a.t); del(a.s); locks(); mx::clear();
}

static void fresh() { liveHandles = 0; mx::locks = 0; mx::clear(); }
int main(int argc, char ** argv)
{
  mc::init(argc, argv); files(); reserveOnce(); bool th = mc::thorough();
  auto list = [](std::vector<int> const & s, std::string (*nm)(int)) { std::string t; for (int o : s) t += (t.empty() ? "" : "; ") + nm(o); return t; };
  for (auto const & c : CMDS) mc::kase([&] { fresh(); discipline(c); }, [&] { return mc::fmt("%s('%s') with every wrong argument", KN[c.k], c.name); });
  for (int k = 0; k < NKIND; ++k) mc::kase([&] { fresh(); commandNames((Kind)k); }, [&] { return mc::fmt("%s: command names, integer classes", KN[k]); });
  int last = th ? NSH : 1; (void)last;
  for (int sp = 0; sp < 3; ++sp) sequences(NSH, th ? 3 : 2, [&](std::vector<int> const & s) {
    mc::kase([&] { fresh();
      balanced([&] { runShell(sp, s, true); }, list(s, shName));
      for (int o = 0; o < NSH; ++o) { std::vector<int> t = s; t.push_back(o); runShell(sp, t, false); mx::clear(); }
    }, [&] { return mc::fmt("shell %d: ", sp) + list(s, shName) + "; then each"; });
  });
  for (int b = -1; b < 3; ++b) sequences(NFL, th ? 4 : 3, [&](std::vector<int> const & s) {
    mc::kase([&] { fresh(); balanced([&] { runTwo(mkFlat(0), mkFlat(b), s, flOp); }, list(s, flName)); }, [&] { return mc::fmt("flats 0 and %d: ", b) + list(s, flName); }); });
  for (int b = -1; b < 3; ++b) sequences(NTR, th ? 4 : 3, [&](std::vector<int> const & s) {
    mc::kase([&] { fresh(); balanced([&] { runTwo(mkTri(0), mkTri(b), s, trOp); }, list(s, trName)); }, [&] { return mc::fmt("trianglegrounds 0 and %d: ", b) + list(s, trName); }); });
  for (int b = -1; b < 4; ++b) sequences(NME, th ? 4 : 2, [&](std::vector<int> const & s) {
    mc::kase([&] { fresh(); balanced([&] { runTwo(mkMesh(0), mkMesh(b), s, meOp); }, list(s, meName)); }, [&] { return mc::fmt("meshes 0 and %d: ", b) + list(s, meName); }); });
  sequences(4 + 2 * SLOTS, th ? 5 : 4, [&](std::vector<int> const & s) {
    mc::kase([&] { fresh(); balanced([&] {
        std::vector<O> sl(SLOTS); for (int o : s) { lifeOp(sl, o); locks(); }
        for (auto & x : sl) if (x) { check(x); mc::nontrivial(); } for (auto & x : sl) if (x) del(x); locks();
      }, "lifetimes"); }, [&] { std::string t; for (int o : s) t += mc::fmt(" %d", o); return "lifetimes (0-3 create flat/shell/triangleground/mesh, 4-6 delete, 7-9 change slot):" + t; });
  });
  return mc::finish();
}
