// C31: the toolbox classes (toolbox/lib/enve_*.m) give what the library gives
// for the same history. The class files are interpreted (matlab.hh) and call
// the real MEX functions; a twin library object is driven directly.
#include "common.hh"
#include "matlab.hh"
#include "mex/mexrt.hh"
#include "mex_utils.hh"
#include <memory>
using ml::V; using ml::Vs;

// ---------------------------------------------------------------- MEX boundary
enum Kind { FLAT, MESH, SHELL, TRI, POINT, PLANE, NKIND };
static char const * KN[] = {"mex_flat", "mex_mesh", "mex_shell", "mex_triangleground", "mex_point", "mex_plane"};
static char const * CN[] = {"enve_flat", "enve_mesh", "enve_shell", "enve_triangleground", "acme_point", "acme_plane"};
struct Handles { std::map<uint64_t, int> own, temp; } ; // created with 'new' / handed out by a query
static Handles hs;
static mxArray * toMx(V const & v)
{
  switch (v->c) {
    case ml::DBL: { mxArray * a = mx::make(v->r, v->n, mxDOUBLE_CLASS); for (size_t i = 0; i < v->num(); ++i) ((double *)a->data)[i] = v->d[i]; return a; }
    case ml::LOG: { mxArray * a = mx::make(v->r, v->n, mxLOGICAL_CLASS); for (size_t i = 0; i < v->num(); ++i) ((bool *)a->data)[i] = v->d[i] != 0; return a; }
    case ml::CHR: if (!v->dq) { mxArray * a = mx::make(v->r, v->n, mxCHAR_CLASS); for (size_t i = 0; i < v->num(); ++i) ((uint16_t *)a->data)[i] = (uint16_t)v->d[i]; return a; } break;
    case ml::U64: { mxArray * a = mx::make(v->r, v->n, mxUINT64_CLASS); for (size_t i = 0; i < v->num(); ++i) ((uint64_t *)a->data)[i] = v->u[i]; return a; }
    default: break;
  }
  return mx::make(1, 1, mxUNKNOWN_CLASS);
}
static V fromMx(mxArray const * a)
{
  size_t r = mxGetM(a), n = mxGetN(a);
  switch (a->cls) {
    case mxDOUBLE_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = ((double *)a->data)[i]; return v; }
    case mxLOGICAL_CLASS: { V v = ml::mk(ml::LOG, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = ((bool *)a->data)[i]; return v; }
    case mxUINT64_CLASS: { V v = ml::mk(ml::U64, r, n); for (size_t i = 0; i < r * n; ++i) v->u[i] = ((uint64_t *)a->data)[i]; return v; }
    case mxCHAR_CLASS: { std::string s; for (size_t i = 0; i < r * n; ++i) s += (char)((uint16_t *)a->data)[i]; return ml::chr(s); }
    case mxINT8_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = (double)((int8_t *)a->data)[i]; return v; }
    case mxUINT8_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = (double)((uint8_t *)a->data)[i]; return v; }
    case mxINT16_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = (double)((int16_t *)a->data)[i]; return v; }
    case mxUINT16_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = (double)((uint16_t *)a->data)[i]; return v; }
    case mxINT32_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = (double)((int32_t *)a->data)[i]; return v; }
    case mxUINT32_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = (double)((uint32_t *)a->data)[i]; return v; }
    case mxINT64_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = (double)((int64_t *)a->data)[i]; return v; }
    case mxSINGLE_CLASS: { V v = ml::mk(ml::DBL, r, n); for (size_t i = 0; i < r * n; ++i) v->d[i] = (double)((float *)a->data)[i]; return v; }
    default: ml::unsup("output class");
  }
}
static std::string context; // what is running, for messages
static Vs mexCall(Kind k, int nout, Vs const & a)
{
  static void (*const F[])(int, mxArray **, int, mxArray const **) = {mexFunction_flat, mexFunction_mesh, mexFunction_shell, mexFunction_triangleground};
  std::string cmd = !a.empty() && a[0]->c == ml::CHR ? ml::text(a[0]) : "";
  // a handle of a deleted object must never reach the MEX function
  for (size_t i = 1; i < a.size(); ++i) if (a[i]->c == ml::U64) for (uint64_t h : a[i]->u) if (h && !hs.own.count(h) && !hs.temp.count(h)) { mc::fail("dead-handle", "%s: %s('%s') is given the handle of a deleted object", context.c_str(), KN[k], cmd.c_str()); ml::err("deleted object"); }
  std::vector<mxArray const *> prhs; for (V const & v : a) prhs.push_back(toMx(v)); size_t nr = prhs.size(); prhs.resize(nr + 8, nullptr);
  std::vector<mxArray *> plhs(std::max(8, nout + 1), nullptr);
  mc::transition();
  try { F[k](nout, plhs.data(), (int)nr, prhs.data()); } catch (MexError const & e) { mx::clear(); ml::err(e.msg); }
  Vs out; for (int i = 0; i < std::max(nout, 1) && plhs[i]; ++i) out.push_back(fromMx(plhs[i]));
  mx::clear();
  if ((int)out.size() < nout) ml::err("One or more output arguments not assigned during call to " + std::string(KN[k]));
  if (cmd == "delete") { auto it = hs.own.find(a.at(1)->u.at(0)); if (it != hs.own.end()) hs.own.erase(it); hs.temp.erase(a[1]->u[0]); }
  for (V const & v : out) if (v->c == ml::U64) for (uint64_t h : v->u) { if (cmd == "new") hs.own[h] = k; else hs.temp[h] = cmd == "getPlane" ? PLANE : cmd == "getTriangleground" ? TRI : POINT; }
  return out;
}
template <class T> static uint64_t newHandle(T * p) { mxArray * a = utils::mex_convert_ptr_to_mx<T>(p); uint64_t h = *(uint64_t *)mxGetData(a); mx::clear(); return h; }
template <class T> static T * ptr(uint64_t h) { mxArray * a = mx::handle(h); T * p; try { p = utils::mex_convert_mx_to_ptr<T>(a); } catch (MexError const & e) { mx::clear(); ml::err(e.msg); } mx::clear(); return p; }
template <class T> static void freeHandle(uint64_t h) { mxArray const * a = mx::handle(h); try { utils::mex_destroy_object<T>(a); } catch (MexError const &) {} mx::clear(); }
static void freeAny(uint64_t h, int k)
{ switch (k) { case POINT: freeHandle<acme::point>(h); break; case PLANE: freeHandle<acme::plane>(h); break; case TRI: freeHandle<enve::triangleground>(h); break; case FLAT: freeHandle<enve::ground::flat>(h); break; case MESH: freeHandle<enve::ground::mesh>(h); break; case SHELL: freeHandle<enve::shell>(h); break; } }
static uint64_t handleOf(V const & v) { if (v->c != ml::U64 || v->num() != 1 || (!hs.own.count(v->u[0]) && !hs.temp.count(v->u[0]))) ml::err("handle expected"); return v->u[0]; }
static P3 vec(V const & v) { if (v->c != ml::DBL || v->num() != 3) ml::err("vector of three expected"); return {v->d[0], v->d[1], v->d[2]}; }
static V col(P3 const & p) { return ml::mat(3, 1, {p[0], p[1], p[2]}); }
// the part of the acme toolbox the classes use
static Vs acmePoint(int, Vs const & a)
{
  std::string c = ml::text(a.at(0));
  if (c == "new") { acme::point * p = a.size() == 1 ? new acme::point(acme::NAN_POINT) : a.size() == 2 ? new acme::point(ap(vec(a[1]))) : new acme::point(ml::scalar(a.at(1)), ml::scalar(a.at(2)), ml::scalar(a.at(3))); uint64_t h = newHandle(p); hs.own[h] = POINT; return {ml::u64(h)}; }
  uint64_t h = handleOf(a.at(1)); acme::point * p = ptr<acme::point>(h);
  if (c == "delete") { if (hs.own.erase(h) || hs.temp.erase(h)) freeHandle<acme::point>(h); return {}; }
  if (c == "copy") { *p = *ptr<acme::point>(handleOf(a.at(2))); return {}; }
  if (c == "get") return {col({p->x(), p->y(), p->z()})};
  ml::err("mex_point: unknown command");
}
static Vs acmePlane(int, Vs const & a)
{
  std::string c = ml::text(a.at(0));
  if (c == "new") { acme::plane * p = a.size() == 1 ? new acme::plane() : new acme::plane(ap(vec(a.at(1))), av(vec(a.at(2)))); uint64_t h = newHandle(p); hs.own[h] = PLANE; return {ml::u64(h)}; }
  uint64_t h = handleOf(a.at(1)); acme::plane * p = ptr<acme::plane>(h);
  if (c == "delete") { if (hs.own.erase(h) || hs.temp.erase(h)) freeHandle<acme::plane>(h); return {}; }
  if (c == "copy") { *p = *ptr<acme::plane>(handleOf(a.at(2))); return {}; }
  if (c == "getOrigin") { acme::point const & o = p->origin(); return {col({o.x(), o.y(), o.z()})}; }
  if (c == "getNormal") { acme::vec3 n = p->normal(); return {col({n.x(), n.y(), n.z()})}; }
  ml::err("mex_plane: unknown command");
}
static char const * ACME = R"M(
classdef acme_entity < handle
  properties
    objectHandle;
  end
end
)M";
static char const * ACMEPOINT = R"M(
classdef acme_point < acme_entity
  methods
    function this = acme_point( varargin )
      this.objectHandle = mex_point( 'new', varargin{:} );
    end
    function delete( this )
      mex_point( 'delete', this.objectHandle );
    end
    function out = get( this )
      out = mex_point( 'get', this.objectHandle );
    end
    function out = getX( this )
      v = this.get(); out = v(1);
    end
    function out = getY( this )
      v = this.get(); out = v(2);
    end
    function out = getZ( this )
      v = this.get(); out = v(3);
    end
    function copyByHandle( this, handle )
      mex_point( 'copy', this.objectHandle, handle );
    end
    function copy( this, other )
      mex_point( 'copy', this.objectHandle, other.objectHandle );
    end
    function out = type( ~ )
      out = 'point';
    end
  end
end
)M";
static char const * ACMEPLANE = R"M(
classdef acme_plane < acme_entity
  methods
    function this = acme_plane( varargin )
      this.objectHandle = mex_plane( 'new', varargin{:} );
    end
    function delete( this )
      mex_plane( 'delete', this.objectHandle );
    end
    function out = getOrigin( this )
      out = acme_point( mex_plane( 'getOrigin', this.objectHandle ) );
    end
    function out = getNormal( this )
      out = mex_plane( 'getNormal', this.objectHandle );
    end
    function copyByHandle( this, handle )
      mex_plane( 'copy', this.objectHandle, handle );
    end
    function copy( this, other )
      mex_plane( 'copy', this.objectHandle, other.objectHandle );
    end
    function plot( this, figure_name, color )
      record_plane( this.getOrigin().get(), this.getNormal(), color );
    end
    function out = type( ~ )
      out = 'plane';
    end
  end
end
)M";
static char const * ACMETRIANGLE = R"M(
classdef acme_triangle < acme_entity
  properties
    V1; V2; V3;
  end
  methods
    function this = acme_triangle( a, b, c )
      this.V1 = a; this.V2 = b; this.V3 = c;
    end
    function out = getVertex1( this )
      out = acme_point( this.V1 );
    end
    function out = getVertex2( this )
      out = acme_point( this.V2 );
    end
    function out = getVertex3( this )
      out = acme_point( this.V3 );
    end
    function out = type( ~ )
      out = 'triangle';
    end
  end
end
)M";
static char const * ACMEDISK = R"M(
classdef acme_disk < acme_entity
  properties
    R; C; N;
  end
  methods
    function this = acme_disk( radius, center, normal )
      this.R = radius; this.C = center; this.N = normal;
    end
    function transform( this, T )
      c = T * [this.C; 1]; this.C = c(1:3); this.N = T(1:3,1:3) * this.N;
    end
    function plot( this, figure_name, color )
      record_disk( this.R, this.C, this.N, color );
    end
    function out = type( ~ )
      out = 'disk';
    end
  end
end
)M";
static ml::Interp * IP;
static bool undecided = false; static std::string whyNot;
static void loadClasses()
{
  IP = new ml::Interp; ml::Interp::current() = IP;
  char const * repo = getenv("MC_REPO"); std::string dir = std::string(repo ? repo : "/repo") + "/toolbox/lib/";
  for (auto s : {ACME, ACMEPOINT, ACMEPLANE, ACMETRIANGLE, ACMEDISK}) IP->load(s, "acme");
  for (int k = 0; k < 4; ++k) {
    std::ifstream f(dir + CN[k] + ".m"); std::stringstream s; s << f.rdbuf();
    try { IP->load(s.str(), CN[k]); } catch (ml::Unsupported const & e) { undecided = true; whyNot = e.what; return; }
    if (!IP->classes.count(CN[k])) { undecided = true; whyNot = std::string(CN[k]) + " is missing"; return; }
    Kind kk = (Kind)k; IP->native[KN[k]] = [kk](int n, Vs const & a) { return mexCall(kk, n, a); };
  }
  // other functions shipped in the folder, e.g. split off the classes
  FILE * p = popen(("ls " + dir + "*.m 2>/dev/null").c_str(), "r"); char b[4096];
  if (p) { while (fgets(b, sizeof b, p)) { std::string n = b; while (!n.empty() && isspace((unsigned char)n.back())) n.pop_back(); std::ifstream f(n); std::stringstream s; s << f.rdbuf(); bool known = n.find("CompileENV") != std::string::npos; for (int k = 0; k < 4; ++k) known = known || n == dir + CN[k] + ".m"; if (!known) try { IP->load(s.str(), n); } catch (ml::Unsupported const &) {} } pclose(p); }
  IP->native["mex_point"] = acmePoint; IP->native["mex_plane"] = acmePlane;
  for (char const * r : {"record_plane", "record_disk"}) { std::string n = r; IP->native[n] = [n](int, Vs const & a) -> Vs { IP->drawn.push_back({n, a}); return {}; }; }
}
// ---------------------------------------------------------------- calls from outside
struct R { bool ok = false, skip = false; Vs v; std::string err; };
static R guard(std::function<Vs()> const & f)
{
  R r; IP->steps = 0; IP->depth = 0;
  try { r.v = f(); r.ok = true; } catch (ml::Error const & e) { r.err = e.msg; } catch (ml::Unsupported const & e) { r.skip = true; r.err = e.what; mc::note(("undecided: " + e.what.substr(0, 60)).c_str()); }
  return r;
}
static R m(V const & o, char const * name, Vs const & a = {}, int nout = 1) { return guard([&] { return IP->callMethod(o, name, a, nout); }); }
static R create(Kind k, Vs const & a) { return guard([&] { return Vs{IP->construct(CN[k], a)}; }); }
static V M4(acme::affine const & A) { V v = ml::mk(ml::DBL, 4, 4); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) v->d[r + 4 * c] = A.matrix()(r, c); return v; }
static V N(double x) { return ml::num(x); }
static V T(std::string const & s) { return ml::chr(s); }
typedef std::vector<double> D;
static bool same(double a, double b) { return (a != a && b != b) || a == b || std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b)) + 1e-300; }
static void values(std::string const & what, R const & r, D const & e, int rows = -1, int cols = -1)
{
  if (r.skip) return;
  MC_OK(r.ok, "refused", "%s: %s raised an error: %s", context.c_str(), what.c_str(), r.err.c_str());
  if (!r.ok) return;
  bool good = !r.v.empty() && ml::isNum(r.v[0]) && r.v[0]->num() == e.size() && (rows < 0 || ((int)r.v[0]->r == rows && (int)r.v[0]->n == cols));
  MC_OK(good, "value", "%s: %s returned %s instead of %zu numbers", context.c_str(), what.c_str(), r.v.empty() ? "nothing" : mc::fmt("a %zux%zu %s", r.v[0]->r, r.v[0]->n, IP->clsName(r.v[0]).c_str()).c_str(), e.size());
  if (!good) return;
  for (size_t i = 0; i < e.size(); ++i) if (!same(r.v[0]->d[i], e[i])) { MC_OK(false, "value", "%s: %s gives %.17g as value %zu, the library gives %.17g", context.c_str(), what.c_str(), r.v[0]->d[i], i, e[i]); return; }
  mc::S().checks++;
  uint64_t h = mc::hs(what); for (double d : r.v[0]->d) h = mc::mixd(h, d); mc::outcome(h);
}
static D d3(P3 const & p) { return {p[0], p[1], p[2]}; }
template <class X> static D dv(X const & p) { return {p[0], p[1], p[2]}; }
static D d16(acme::affine const & A) { D v; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) v.push_back(A.matrix()(r, c)); return v; }
static bool isObj(R const & r, char const * cls) { return r.ok && r.v.size() && r.v[0]->c == ml::OBJ && IP->isA(r.v[0]->o->cls, cls); }
static void pointIs(std::string const & what, R const & r, acme::point const & p)
{
  if (r.skip) return;
  MC_OK(isObj(r, "acme_point"), "value", "%s: %s did not return a point: %s", context.c_str(), what.c_str(), r.err.c_str());
  if (isObj(r, "acme_point")) values(what + ".get()", m(r.v[0], "get"), dv(p), 3, 1);
}
// ---------------------------------------------------------------- objects with their twin
struct Obj { Kind k; V v; std::shared_ptr<enve::ground::flat> f; std::shared_ptr<enve::ground::mesh> m; std::shared_ptr<enve::shell> s; std::shared_ptr<enve::triangleground> t; bool setup = false; };
typedef std::shared_ptr<Obj> O;
static acme::point vtx(enve::triangleground const & t, int i) { acme::triangle const & c = t; return c.vertex(i); }
static void triIs(std::string const & what, V const & o, enve::triangleground const & t)
{
  values(what + ".getID()", m(o, "getID"), {(double)t.id()}); values(what + ".getFriction()", m(o, "getFriction"), {t.friction()}); values(what + ".normal()", m(o, "normal"), dv(t.normal()), 3, 1);
  pointIs(what + ".getVertex1()", m(o, "getVertex1"), vtx(t, 0)); pointIs(what + ".getVertex2()", m(o, "getVertex2"), vtx(t, 1)); pointIs(what + ".getVertex3()", m(o, "getVertex3"), vtx(t, 2));
}
static void typeIs(V const & o, char const * t)
{ R r = m(o, "type"); if (r.skip) return; MC_OK(r.ok && r.v.size() && r.v[0]->c == ml::CHR && ml::text(r.v[0]) == t, "value", "%s: type() of the %s is not '%s'", context.c_str(), o->o->cls.c_str(), t); }
static V color() { static V c = ml::mat(1, 3, {0.25, 0.5, 0.75}); return c; }
// the drawing commands issued by a method
static std::vector<ml::Draw> draw(V const & o, char const * name, Vs const & a, bool & ok)
{
  IP->drawn.clear(); R r = m(o, name, a, 0); ok = r.ok && !r.skip;
  if (!r.skip) MC_OK(r.ok, "refused", "%s: %s() raised an error: %s", context.c_str(), name, r.err.c_str());
  std::vector<ml::Draw> d; d.swap(IP->drawn); return d;
}
static std::vector<ml::Draw> pick(std::vector<ml::Draw> const & d, char const * n) { std::vector<ml::Draw> v; for (auto const & x : d) if (x.name == n) v.push_back(x); return v; }
// other ways of drawing leave the picture undecided
static bool other(std::vector<ml::Draw> const & d, std::set<std::string> const & expected)
{ static std::set<std::string> all = {"plot", "plot3", "line", "patch", "fill3", "surf", "mesh", "quiver3", "quiver", "scatter3", "trisurf", "trimesh", "record_plane", "record_disk"}; for (auto const & x : d) if (all.count(x.name) && !expected.count(x.name)) { mc::note("undecided picture"); return true; } return false; }
static void near2(std::string const & what, double a, double b, double tol = 1e-9) { if ((std::isnan(a) && std::isnan(b)) || a == b) return; MC_OK(std::abs(a - b) <= tol * (1 + std::abs(b)), "picture", "%s: %s draws %.12g instead of %.12g", context.c_str(), what.c_str(), a, b); }
static void trianglesDrawn(std::string const & what, std::vector<ml::Draw> const & d, std::vector<std::array<P3, 3>> const & e)
{
  if (other(d, {"patch"})) return;
  std::vector<std::array<P3, 3>> got;
  for (auto const & p : pick(d, "patch")) {
    if (p.a.size() < 3 || p.a[0]->c != ml::DBL) { mc::note("undecided picture"); return; }
    size_t r = p.a[0]->r, n = p.a[0]->n; bool rowv = r == 1; if (rowv) std::swap(r, n);
    if (r != 3 || p.a[1]->num() != r * n || p.a[2]->num() != r * n) { if (r * n == 0) continue; mc::note("undecided picture"); return; }
    for (size_t j = 0; j < n; ++j) { std::array<P3, 3> t; for (int i = 0; i < 3; ++i) t[i] = {p.a[0]->d[i + 3 * j], p.a[1]->d[i + 3 * j], p.a[2]->d[i + 3 * j]}; got.push_back(t); }
  }
  MC_OK(got.size() == e.size(), "picture", "%s: %s draws %zu triangles of %zu", context.c_str(), what.c_str(), got.size(), e.size());
  auto key = [](std::array<P3, 3> t) { std::sort(t.begin(), t.end()); return t; };
  std::vector<std::array<P3, 3>> a, b; for (auto const & t : got) a.push_back(key(t)); for (auto const & t : e) b.push_back(key(t)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) for (int k = 0; k < 3; ++k) for (int c = 0; c < 3; ++c) near2(what, a[i][k][c], b[i][k][c]);
}
static std::array<P3, 3> corners(enve::triangleground const & t) { return {p3(vtx(t, 0)), p3(vtx(t, 1)), p3(vtx(t, 2))}; }
static void shown(std::string const & what, V const & o, std::vector<D> const & cols, size_t rows)
{
  IP->drawn.clear(); R r = m(o, "disp", {}, 0); if (r.skip) return;
  MC_OK(r.ok, "refused", "%s: %s raised an error: %s", context.c_str(), what.c_str(), r.err.c_str()); if (!r.ok) return;
  auto d = pick(IP->drawn, "disp"); IP->drawn.clear(); if (d.size() != 1) { mc::note("undecided disp"); return; }
  V v = d[0].a[0]; if (v->r != rows || v->n != cols.size()) { mc::note("undecided disp"); return; }
  for (size_t j = 0; j < cols.size(); ++j) for (size_t i = 0; i < rows; ++i) MC_OK(same(v->d[i + j * rows], cols[j][i]), "value", "%s: %s shows %.17g at %zu,%zu, the library holds %.17g", context.c_str(), what.c_str(), v->d[i + j * rows], i, j, cols[j][i]);
}
static const double YS[] = {-0.12, -0.05, 0.0, 0.031, 0.09};
typedef Eigen::Matrix4d Mat4;
static void framesDrawn(std::string const & what, std::vector<ml::Draw> const & d, std::vector<acme::affine> const & frames, double sc)
{
  auto q = pick(d, "quiver3"); MC_OK(q.size() == 3 * frames.size(), "picture", "%s: %s draws %zu arrows for %zu frames", context.c_str(), what.c_str(), q.size(), frames.size());
  if (q.size() != 3 * frames.size()) return;
  for (size_t k = 0; k < q.size(); ++k) { auto const & a = q[k].a; if (a.size() < 6) { mc::note("undecided picture"); return; } for (int c = 0; c < 3; ++c) { near2(what + " (arrow origin)", ml::scalar(a[c]), frames[k / 3].matrix()(c, 3)); near2(what + " (arrow)", ml::scalar(a[3 + c]), frames[k / 3].matrix()(c, (int)(k % 3))); } if (a.size() > 6) near2(what + " (arrow scale)", ml::scalar(a[6]), sc); }
}
// every row of the drawn surface is a ring around the axle whose radius belongs to its distance from the middle
static std::vector<std::pair<double, double>> rings(std::string const & what, ml::Draw const & d, acme::affine const & A, bool & ok)
{
  std::vector<std::pair<double, double>> v; ok = d.a.size() >= 3 && d.a[0]->c == ml::DBL && d.a[0]->num() > 0 && d.a[0]->num() == d.a[1]->num() && d.a[0]->num() == d.a[2]->num(); if (!ok) { mc::note("undecided picture"); return v; }
  Mat4 I = A.matrix().inverse(); size_t r = d.a[0]->r, n = d.a[0]->n;
  for (size_t i = 0; i < r; ++i) {
    double y0 = 0, r0 = 0, cx = 0, cz = 0;
    for (size_t j = 0; j < n; ++j) {
      size_t k = i + j * r; Eigen::Vector4d p = I * Eigen::Vector4d(d.a[0]->d[k], d.a[1]->d[k], d.a[2]->d[k], 1); double rad = std::hypot(p[0], p[2]);
      if (j == 0) { y0 = p[1]; r0 = rad; } else { near2(what + " (ring position)", p[1], y0); near2(what + " (ring radius)", rad, r0); } if (j + 1 < n) { cx += p[0]; cz += p[2]; }
    }
    MC_OK(std::hypot(cx, cz) < 1e-6 * (double)n, "picture", "%s: %s draws a ring that is not closed", context.c_str(), what.c_str());
    v.push_back({y0, r0});
  }
  return v;
}
static void surfaceDrawn(std::string const & what, std::vector<ml::Draw> const & d, enve::shell const & s, acme::affine const & A)
{
  auto q = pick(d, "surf"); if (q.size() != 1) { MC_OK(!q.empty(), "picture", "%s: %s draws no surface", context.c_str(), what.c_str()); mc::note("undecided picture"); return; }
  bool ok; auto v = rings(what, q[0], A, ok); if (!ok) return; double W = s.surfaceWidth(), lo = 1e9, hi = -1e9;
  for (auto const & p : v) { lo = std::min(lo, p.first); hi = std::max(hi, p.first); double y = std::max(-W, std::min(W, p.first)); MC_OK(std::abs(p.first) <= W + 1e-9, "picture", "%s: %s draws outside of the width", context.c_str(), what.c_str()); near2(what + " (radius)", p.second, s.surfaceRadius(y), 1e-6); }
  near2(what + " (first side)", lo, -W); near2(what + " (last side)", hi, W);
}
static void picturesOf(O const & o)
{
  auto & s = *o->s; bool ok; V c = color(), fig = N(1); acme::affine I; I.matrix().setIdentity(); acme::affine A = s.transformation(); size_t n = s.size();
  {
    auto d = draw(o->v, "profile", {fig, c}, ok); auto q = pick(d, "plot");
    if (ok && !other(d, {"plot"})) {
      MC_OK(q.size() == 1, "picture", "%s: profile() draws %zu curves", context.c_str(), q.size());
      if (q.size() == 1 && q[0].a.size() >= 2 && q[0].a[0]->num() == q[0].a[1]->num() && q[0].a[0]->num() > 2) { auto & y = q[0].a[0]->d; auto & r = q[0].a[1]->d; double W = s.surfaceWidth(); near2("profile() (first)", y.front(), -W); near2("profile() (last)", y.back(), W); for (size_t i = 0; i < y.size(); ++i) near2("profile()", r[i], s.surfaceRadius(std::max(-W, std::min(W, y[i]))), 1e-6); }
      else if (q.size() == 1) mc::note("undecided picture");
    }
  }
  for (int k = 0; k < 2; ++k) {
    acme::affine const & P = k ? A : I;
    char const * nm[3][2] = {{"shellShape", "plotShape"}, {"shellEnve", "plotEnve"}, {"shellRibs", "plotRibs"}};
    auto d = draw(o->v, nm[0][k], {fig, c, N(0.3)}, ok);
    if (ok && !other(d, {"surf", "quiver3"})) { surfaceDrawn(std::string(nm[0][k]) + "()", d, s, P); framesDrawn(std::string(nm[0][k]) + "()", d, {P}, 0.3); }
    d = draw(o->v, nm[1][k], {fig, c, N(0.2)}, ok);
    if (ok && !other(d, {"surf", "quiver3"})) {
      std::string w = std::string(nm[1][k]) + "()"; framesDrawn(w, d, {P}, 0.2);
      auto q = pick(d, "surf"); MC_OK(q.size() == n, "picture", "%s: %s draws %zu rings for %zu ribs", context.c_str(), w.c_str(), q.size(), n);
      if (q.size() == n) {
        std::vector<std::array<double, 3>> got, exp; bool good = true;
        for (size_t i = 0; i < n && good; ++i) { auto v = rings(w, q[i], P, good); if (!good || v.size() != 2) { good = false; break; } got.push_back({(v[0].first + v[1].first) / 2, std::abs(v[1].first - v[0].first), (v[0].second + v[1].second) / 2}); exp.push_back({s.ribCenter(i).y(), s.ribWidth(i), s.ribRadius(i)}); }
        if (good) { std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); for (size_t i = 0; i < n; ++i) { near2(w + " (rib position)", got[i][0], exp[i][0]); near2(w + " (rib width)", got[i][1], exp[i][1]); near2(w + " (rib radius)", got[i][2], exp[i][2]); } } else mc::note("undecided picture");
      }
    }
    d = draw(o->v, nm[2][k], {fig, c, N(0.2)}, ok);
    if (ok && !other(d, {"record_disk", "quiver3"})) {
      std::string w = std::string(nm[2][k]) + "()"; framesDrawn(w, d, {P}, 0.2); auto q = pick(d, "record_disk");
      MC_OK(q.size() == n, "picture", "%s: %s draws %zu disks for %zu ribs", context.c_str(), w.c_str(), q.size(), n);
      for (size_t i = 0; i < n && q.size() == n; ++i) {
        acme::vec3 cc = s.ribCenter(i); cc = P * cc; acme::vec3 nn = P.linear() * acme::vec3(0, 1, 0); near2(w + " (disk radius)", ml::scalar(q[i].a[0]), s.ribRadius(i));
        if (q[i].a[1]->num() < 3 || q[i].a[2]->num() < 3) { mc::note("undecided picture"); break; }
        double sg = q[i].a[2]->d[0] * nn[0] + q[i].a[2]->d[1] * nn[1] + q[i].a[2]->d[2] * nn[2] < 0 ? -1 : 1;
        for (int x = 0; x < 3; ++x) { near2(w + " (disk centre)", q[i].a[1]->d[x], cc[x]); near2(w + " (disk axis)", sg * q[i].a[2]->d[x], nn[x]); }
      }
    }
  }
  {
    R r = m(o->v, "meshShell"); if (!r.skip) {
      bool good = r.ok && r.v.size() && r.v[0]->c == ml::STRUCT && r.v[0]->st.count("X") && r.v[0]->st.count("Y") && r.v[0]->st.count("Z"); MC_OK(good, "value", "%s: meshShell() gives no X, Y, Z: %s", context.c_str(), r.err.c_str());
      if (good) surfaceDrawn("meshShell()", {{"surf", {r.v[0]->st["X"], r.v[0]->st["Y"], r.v[0]->st["Z"]}}}, s, I);
    }
  }
  if (o->setup) {
    acme::affine F; s.contactPointAffine(F); auto d = draw(o->v, "plotSetupAvg", {fig, N(0.4)}, ok); if (ok && !other(d, {"quiver3"})) framesDrawn("plotSetupAvg()", d, {F}, 0.4);
    std::vector<acme::affine> all; for (size_t i = 0; i < n; ++i) { s.contactPointAffine(i, F); all.push_back(F); auto e = draw(o->v, "plotSetupRib", {N((double)i + 1), fig, N(0.4)}, ok); if (ok && !other(e, {"quiver3"})) framesDrawn("plotSetupRib()", e, {F}, 0.4); }
    d = draw(o->v, "plotSetupVec", {fig, N(0.4)}, ok); if (ok && !other(d, {"quiver3"})) framesDrawn("plotSetupVec()", d, all, 0.4);
  }
}
// the i-th entry of a list, given as a cell or as a vector
static R entry(R const & l, size_t i)
{ R r = l; if (!l.ok || l.v.empty()) return r; V v = l.v[0]; if (v->c == ml::CELL) { if (i < v->num() && v->cell[i]) r.v = {v->cell[i]}; else { r.ok = false; r.err = "list too short"; } } else if (ml::isNum(v) && i < v->num()) r.v = {ml::num(v->d[i])}; else { r.ok = false; r.err = "list too short"; } return r; }
static void lengthIs(std::string const & what, R const & r, size_t n) { if (r.skip) return; MC_OK(r.ok && r.v.size() && r.v[0]->num() == n, "value", "%s: %s gives %zu entries for %zu ribs: %s", context.c_str(), what.c_str(), r.v.size() ? r.v[0]->num() : 0, n, r.err.c_str()); }
static void check(O const & o, bool pictures)
{
  V const & v = o->v; bool ok; mc::state(mc::hs(context));
  if (o->k == FLAT) {
    auto & f = *o->f; pointIs("getOrigin()", m(v, "getOrigin"), f.origin()); values("getNormal()", m(v, "getNormal"), dv(f.acme::plane::normal()), 3, 1); values("getFriction()", m(v, "getFriction"), {f.friction()});
    values("isDegenerated()", m(v, "isDegenerated"), {(double)f.isDegenerated()}); values("isApprox(itself)", m(v, "isApprox", {v}), {(double)f.isApprox(f)}); typeIs(v, "flat");
    R p = m(v, "getPlane"); if (!p.skip) { MC_OK(isObj(p, "acme_plane"), "value", "%s: getPlane() did not return a plane: %s", context.c_str(), p.err.c_str()); if (isObj(p, "acme_plane")) { pointIs("getPlane().getOrigin()", m(p.v[0], "getOrigin"), f.layingPlane().origin()); values("getPlane().getNormal()", m(p.v[0], "getNormal"), dv(f.layingPlane().normal())); } }
    double q = NAN; shown("disp()", v, {{f.friction(), q, q}, dv(f.origin()), dv(f.acme::plane::normal())}, 3);
    if (pictures) { auto d = draw(v, "plot", {N(1), color()}, ok); if (ok && !other(d, {"record_plane"})) { auto r = pick(d, "record_plane"); MC_OK(r.size() == 1, "picture", "%s: plot() of a flat draws %zu planes", context.c_str(), r.size()); if (r.size() == 1) for (int i = 0; i < 3; ++i) { near2("plot() of a flat (origin)", r[0].a[0]->d[i], f.origin()[i]); near2("plot() of a flat (normal)", r[0].a[1]->d[i], f.acme::plane::normal()[i]); } } }
  } else if (o->k == TRI) {
    auto & t = *o->t; triIs("triangle", v, t); typeIs(v, "triangleground"); shown("disp()", v, {{(double)t.id(), t.friction(), NAN}, dv(vtx(t, 0)), dv(vtx(t, 1)), dv(vtx(t, 2))}, 3);
    R c = m(v, "toTriangle"); if (!c.skip) { MC_OK(isObj(c, "acme_triangle"), "value", "%s: toTriangle() did not return a triangle: %s", context.c_str(), c.err.c_str()); if (isObj(c, "acme_triangle")) for (int i = 0; i < 3; ++i) pointIs("toTriangle()", m(c.v[0], i == 0 ? "getVertex1" : i == 1 ? "getVertex2" : "getVertex3"), vtx(t, i)); }
    if (pictures) { auto d = draw(v, "plot", {N(1), color()}, ok); if (ok) trianglesDrawn("plot() of a triangle", d, {corners(t)}); }
  } else if (o->k == MESH) {
    auto & g = *o->m; values("size()", m(v, "size"), {(double)g.size()}); typeIs(v, "mesh"); std::vector<std::array<P3, 3>> all;
    for (size_t i = 0; i < g.size(); ++i) {
      auto const & t = *g.ptrTriangleground(i); all.push_back(corners(t)); std::string w = mc::fmt("(%zu)", i + 1);
      R r = m(v, "getTriangleground", {N((double)i + 1)}); if (!r.skip) { MC_OK(isObj(r, "enve_triangleground"), "value", "%s: getTriangleground%s did not return a triangle: %s", context.c_str(), w.c_str(), r.err.c_str()); if (isObj(r, "enve_triangleground")) triIs("getTriangleground" + w, r.v[0], t); }
      D e; for (int k = 0; k < 3; ++k) for (int c = 0; c < 3; ++c) e.push_back(vtx(t, k)[c]);
      values("getTrianglegroundVertices" + w, m(v, "getTrianglegroundVertices", {N((double)i + 1)}), e, 3, 3); values("getTriangleVertices" + w, m(v, "getTriangleVertices", {N((double)i + 1)}), e, 3, 3);
      R c = m(v, "getTriangle", {N((double)i + 1)}); if (!c.skip) { MC_OK(isObj(c, "acme_triangle"), "value", "%s: getTriangle%s did not return a triangle: %s", context.c_str(), w.c_str(), c.err.c_str()); if (isObj(c, "acme_triangle")) for (int k = 0; k < 3; ++k) pointIs("getTriangle" + w, m(c.v[0], k == 0 ? "getVertex1" : k == 1 ? "getVertex2" : "getVertex3"), vtx(t, k)); }
    }
    for (double i : {0.0, (double)g.size() + 1, 1.5}) { R r = m(v, "getTriangleground", {N(i)}); if (!r.skip) MC_OK(!r.ok, "accepted", "%s: getTriangleground(%g) was accepted", context.c_str(), i); r = m(v, "getTrianglegroundVertices", {N(i)}); if (!r.skip) MC_OK(!r.ok, "accepted", "%s: getTrianglegroundVertices(%g) was accepted", context.c_str(), i); }
    { IP->shown.clear(); R r = m(v, "disp", {}, 0); if (!r.skip) { MC_OK(r.ok, "refused", "%s: disp() raised an error: %s", context.c_str(), r.err.c_str()); MC_OK(!r.ok || IP->shown.find(mc::fmt("%zu", g.size())) != std::string::npos, "value", "%s: disp() of a mesh of %zu triangles shows '%s'", context.c_str(), g.size(), IP->shown.c_str()); } IP->shown.clear(); IP->drawn.clear(); }
    if (pictures) { auto d = draw(v, "plot", {N(1), color()}, ok); if (ok) trianglesDrawn("plot() of a mesh", d, all); }
  } else {
    auto & s = *o->s; size_t n = s.size(); typeIs(v, "shell");
    values("size()", m(v, "size"), {(double)n}); values("surfaceMaxRadius()", m(v, "surfaceMaxRadius"), {s.surfaceMaxRadius()}); values("surfaceMaxWidth()", m(v, "surfaceMaxWidth"), {s.surfaceMaxWidth()}); values("surfaceWidth()", m(v, "surfaceWidth"), {s.surfaceWidth()});
    for (double y : YS) {
      values("surfaceWidthBound()", m(v, "surfaceWidthBound", {N(y)}), {(double)s.checkWidthBound(y)});
      auto q = [&](char const * nm, std::function<double()> g) { double x = 0; bool th = false; try { x = g(); } catch (std::exception const &) { th = true; } R r = m(v, nm, {N(y)}); if (r.skip) return; if (th) MC_OK(!r.ok, "accepted", "%s: %s(%g) was accepted although the library refuses it", context.c_str(), nm, y); else values(mc::fmt("%s(%g)", nm, y), r, {x}); };
      q("surfaceRadius", [&] { return s.surfaceRadius(y); }); q("surfaceDerivative", [&] { return s.surfaceDerivative(y); }); q("surfaceAngle", [&] { return s.surfaceAngle(y); });
    }
    values("translation()", m(v, "translation"), dv(s.translation()), 3, 1); values("x()", m(v, "x"), dv(s.x()), 3, 1); values("y()", m(v, "y"), dv(s.y()), 3, 1); values("z()", m(v, "z"), dv(s.z()), 3, 1);
    acme::vec3 w3; s.eulerAngles(w3); values("eulerAngles()", m(v, "eulerAngles"), dv(w3), 3, 1); acme::mat3 Q = s.rotation(); D q9; for (int c = 0; c < 3; ++c) for (int i = 0; i < 3; ++i) q9.push_back(Q(i, c)); values("rotation()", m(v, "rotation"), q9, 3, 3);
    values("transformation()", m(v, "transformation"), d16(s.transformation()), 4, 4);
    shown("disp()", v, {{(double)n}}, 1);
    double d; acme::point p; acme::affine A; A.matrix().setZero();
    if (o->setup) {
      s.contactPoint(p); pointIs("contactPointAvg()", m(v, "contactPointAvg"), p); s.contactNormal(w3); values("contactNormalAvg()", m(v, "contactNormalAvg"), dv(w3), 3, 1); s.contactDepth(d); values("contactDepthAvg()", m(v, "contactDepthAvg"), {d});
      s.contactFriction(d); values("contactFrictionAvg()", m(v, "contactFrictionAvg"), {d}); s.contactArea(d); values("contactAreaAvg()", m(v, "contactAreaAvg"), {d}); s.contactVolume(d); values("contactVolumeAvg()", m(v, "contactVolumeAvg"), {d});
      s.contactPointAffine(A); values("contactPointAffineAvg()", m(v, "contactPointAffineAvg"), d16(A), 4, 4); s.relativeAngles(w3); values("relativeAnglesAvg()", m(v, "relativeAnglesAvg"), dv(w3), 3, 1);
    }
    static char const * L[] = {"contactPointVec", "contactNormalVec", "contactDepthVec", "contactFrictionVec", "contactAreaVec", "contactVolumeVec", "contactPointAffineVec", "relativeAnglesVec"}; R l[8];
    if (o->setup) for (int k = 0; k < 8; ++k) { l[k] = m(v, L[k]); lengthIs(std::string(L[k]) + "()", l[k], n); }
    for (size_t i = 0; i < n; ++i) {
      V I = N((double)i + 1); std::string t = mc::fmt("(%zu)", i + 1), e = "()" + t;
      values("ribRadius" + t, m(v, "ribRadius", {I}), {s.ribRadius(i)}); pointIs("ribCenter" + t, m(v, "ribCenter", {I}), s.ribCenter(i)); values("ribWidth" + t, m(v, "ribWidth", {I}), {s.ribWidth(i)});
      if (!o->setup) continue;
      s.contactPoint(i, p); pointIs("contactPointRib" + t, m(v, "contactPointRib", {I}), p); pointIs(L[0] + e, entry(l[0], i), p);
      s.contactNormal(i, w3); values("contactNormalRib" + t, m(v, "contactNormalRib", {I}), dv(w3), 3, 1); values(L[1] + e, entry(l[1], i), dv(w3));
      s.contactDepth(i, d); values("contactDepthRib" + t, m(v, "contactDepthRib", {I}), {d}); values(L[2] + e, entry(l[2], i), {d});
      s.contactFriction(i, d); values("contactFrictionRib" + t, m(v, "contactFrictionRib", {I}), {d}); values(L[3] + e, entry(l[3], i), {d});
      s.contactArea(i, d); values("contactAreaRib" + t, m(v, "contactAreaRib", {I}), {d}); values(L[4] + e, entry(l[4], i), {d});
      s.contactVolume(i, d); values("contactVolumeRib" + t, m(v, "contactVolumeRib", {I}), {d}); values(L[5] + e, entry(l[5], i), {d});
      s.contactPointAffine(i, A); values("contactPointAffineRib" + t, m(v, "contactPointAffineRib", {I}), d16(A), 4, 4); values(L[6] + e, entry(l[6], i), d16(A));
      s.relativeAngles(i, w3); values("relativeAnglesRib" + t, m(v, "relativeAnglesRib", {I}), dv(w3), 3, 1); values(L[7] + e, entry(l[7], i), dv(w3));
    }
    for (double i : {0.0, (double)n + 1, -1.0, 1.5}) for (char const * nm : {"ribRadius", "ribCenter", "ribWidth", "contactPointRib", "contactDepthRib", "contactNormalRib", "contactFrictionRib", "contactAreaRib", "contactVolumeRib", "contactPointAffineRib", "relativeAnglesRib"}) { R r = m(v, nm, {N(i)}); if (!r.skip) MC_OK(!r.ok, "accepted", "%s: %s(%g) of %zu ribs was accepted", context.c_str(), nm, i, n); }
    if (pictures) picturesOf(o);
  }
}
// ---------------------------------------------------------------- construction
struct ShellPar { double n, rx, m_x, ry, m_y, ly; };
static const ShellPar SP[] = {{3, 0.31, 9, 0.11, 6, 0.1}, {1, 0.25, 2, 0.2, 4, 0.08}, {6, 0.3, 4, 0.15, 2, 0.12}};
static const P3 FO[] = {{0.1, -0.2, 0.02}, {0, 0, 0}, {3, 1, -0.4}}, FN[] = {{0.1, 0.05, 2}, {0, 0, 1}, {-0.2, 0.3, 0.9}};
static const double FM[] = {0.7, 1, 0};
static bool take(O const & o, R const & r, Kind k)
{ if (r.skip) return false; bool ok = isObj(r, CN[k]); MC_OK(ok, "refused", "%s: %s gave no object: %s", context.c_str(), CN[k], r.err.c_str()); if (ok) o->v = r.v[0]; return ok; }
static O mkFlat(int i)
{
  O o = std::make_shared<Obj>(); o->k = FLAT; Vs a;
  if (i < 0) o->f = std::make_shared<enve::ground::flat>(); else { a = {N(FM[i]), col(FO[i]), col(FN[i])}; o->f = std::make_shared<enve::ground::flat>(FM[i], ap(FO[i]), av(FN[i])); }
  return take(o, create(FLAT, a), FLAT) ? o : nullptr;
}
static O mkShell(int i)
{
  O o = std::make_shared<Obj>(); o->k = SHELL; auto & p = SP[i]; o->s = std::make_shared<enve::shell>((int)p.n, p.rx, p.m_x, p.ry, p.m_y, p.ly);
  return take(o, create(SHELL, {N(p.n), N(p.rx), N(p.m_x), N(p.ry), N(p.m_y), N(p.ly)}), SHELL) ? o : nullptr;
}
static const P3 TV[3][3] = {{{0, 0, 0}, {1, 0, 0.1}, {0.2, 1, 0}}, {{-1, 2, 3}, {4, 2.5, 3.5}, {0, 5, 3.25}}, {{0.5, 0, 0}, {0, -0.5, 0.75}, {1, 1, 1}}};
static const int TI[] = {7, -3, 100}; static const double TM[] = {0.8, 0, 1.5};
static O mkTri(int i)
{
  O o = std::make_shared<Obj>(); o->k = TRI; Vs a;
  if (i < 0) o->t = std::make_shared<enve::triangleground>(0, 0.0, acme::NAN_POINT, acme::NAN_POINT, acme::NAN_POINT);
  else { a = {N(TI[i]), N(TM[i]), col(TV[i][0]), col(TV[i][1]), col(TV[i][2])}; o->t = std::make_shared<enve::triangleground>(TI[i], TM[i], ap(TV[i][0]), ap(TV[i][1]), ap(TV[i][2])); }
  return take(o, create(TRI, a), TRI) ? o : nullptr;
}
static const Pose MP = {0.03, -0.02, 0.01, 0.4, 0.05, 0.02};
static void files()
{
  std::ofstream("a.rdf") << "[NODES]\n0 -1 -1 0\n1 1 -1 0.02\n2 1 1 0\n3 -1 1 0.03\n4 0.1 0.05 0.08\n[ELEMENTS]\n0 1 4 0.9\n1 2 4 0.8\n2 3 4 0.7\n3 0 4 0.6\n";
  std::ofstream("b.obj") << "v -1 -1 0.05\nv 1 -1 0.02\nv 1 1 0\nv -1 1 0.01\nf 1 2 3\nf 1 3 4\n";
  std::ofstream("bad.rdf") << "[NODES]\n0 1 2\n"; std::ofstream("c.txt") << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"; std::ofstream("d.OBJ") << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n";
}
static O mkMesh(int i)
{
  O o = std::make_shared<Obj>(); o->k = MESH; o->m = std::make_shared<enve::ground::mesh>(); Vs a;
  switch (i) {
    case 0: a = {T("./a.rdf")}; o->m->load("./a.rdf"); break;
    case 1: a = {T("./b.obj"), N(0.75)}; o->m->load("./b.obj", 0.75); break;
    case 2: a = {T("./a.rdf"), M4(aff(MP))}; o->m->load("./a.rdf", aff(MP)); break;
    default: a = {T("./b.obj"), N(0.5), M4(aff(MP))}; o->m->load("./b.obj", 0.5, aff(MP)); break;
  }
  return take(o, create(MESH, a), MESH) ? o : nullptr;
}
// ---------------------------------------------------------------- operations
static void both(R const & r, std::function<void()> const & lib, std::string const & what)
{
  bool ok = true; try { lib(); } catch (std::exception const &) { ok = false; }
  if (r.skip) { mc::note("undecided operation"); return; }
  MC_OK(r.ok == ok, "refused", "%s: %s was %s, the library %s it: %s", context.c_str(), what.c_str(), r.ok ? "accepted" : "refused", ok ? "accepts" : "refuses", r.err.c_str());
}
static void refuses(R const & r, std::string const & what) { if (!r.skip) MC_OK(!r.ok, "accepted", "%s: %s was accepted", context.c_str(), what.c_str()); }
static const Pose SPOSE[] = {{0.02, 0.01, 0.24, 0.3, 0.04, 0.5}, {-0.1, 0.03, 0.27, -1, -0.06, 2}, {0, 0, 5, 0, 0, 0}};
struct World { O s, f, g, m, t; };
static const int NSH = 15;
static char const * SHN[] = {"resize 1", "resize 4", "translate", "rotate about z", "rotate about a long axis", "transform A", "transform B", "setupFlat(f, A, geometric)", "setupFlat(g, B, sampling)", "setupMesh(A, geometric)", "setupMesh(B, sampling)",
  "setupMesh(A, unknown method)", "transform by a non-rigid matrix", "wrong calls", "setupFlat(f, lifted, sampling)"};
static void setupOp(World & w, bool mesh, O const & g, Pose const & p, char const * method)
{
  R r = m(w.s->v, mesh ? "setupMesh" : "setupFlat", {g->v, M4(aff(p)), T(method)}); bool out = false, ok = true;
  try { out = mesh ? w.s->s->setup(*g->m, aff(p), method) : w.s->s->setup(*g->f, aff(p), method); } catch (std::exception const &) { ok = false; }
  w.s->setup = ok; if (out) mc::nontrivial(); if (r.skip) { w.s->setup = false; return; }
  MC_OK(r.ok == ok, "refused", "%s: setup was %s, the library %s it: %s", context.c_str(), r.ok ? "accepted" : "refused", ok ? "accepts" : "refuses", r.err.c_str());
  if (r.ok && ok) values("setup", r, {(double)out});
}
static void shOp(World & w, int o)
{
  auto & s = *w.s->s; V const & v = w.s->v; acme::affine A = aff(SPOSE[0]), B = aff(SPOSE[1]), X; X.matrix() << 1, 0.5, 0, 1, 0, 2, 0, 2, 0.1, 0, 1, 3, 0, 0, 0, 1;
  switch (o) {
    case 0: both(m(v, "resize", {N(1)}, 0), [&] { s.resize(1); }, "resize"); w.s->setup = false; break;
    case 1: both(m(v, "resize", {N(4)}, 0), [&] { s.resize(4); }, "resize"); w.s->setup = false; break;
    case 2: both(m(v, "translate", {col({0.1, -0.2, 0.3})}, 0), [&] { s.translate(acme::vec3(0.1, -0.2, 0.3)); }, "translate"); break;
    case 3: both(m(v, "rotate", {N(0.7), col({0, 0, 1})}, 0), [&] { s.rotate(0.7, acme::vec3(0, 0, 1)); }, "rotate"); break;
    case 4: both(m(v, "rotate", {N(-0.4), col({1, 2, -2})}, 0), [&] { s.rotate(-0.4, acme::vec3(1, 2, -2)); }, "rotate"); break;
    case 5: both(m(v, "transform", {M4(A)}, 0), [&] { s.transform(A); }, "transform"); break;
    case 6: both(m(v, "transform", {M4(B)}, 0), [&] { s.transform(B); }, "transform"); break;
    case 7: setupOp(w, false, w.f, SPOSE[0], "geometric"); break; case 8: setupOp(w, false, w.g, SPOSE[1], "sampling"); break;
    case 9: setupOp(w, true, w.m, SPOSE[0], "geometric"); break; case 10: setupOp(w, true, w.m, SPOSE[1], "sampling"); break; case 11: setupOp(w, true, w.m, SPOSE[0], "guess"); break;
    case 12: both(m(v, "transform", {M4(X)}, 0), [&] { s.transform(X); }, "transform"); break;
    case 13:
      refuses(m(v, "resize", {}, 0), "resize without a number"); refuses(m(v, "translate", {N(1)}, 0), "translate by a number"); refuses(m(v, "rotate", {N(1)}, 0), "rotate without an axis"); refuses(m(v, "transform", {col({1, 2, 3})}, 0), "transform by a vector");
      refuses(m(v, "setupFlat", {w.m->v, M4(A), T("geometric")}), "setupFlat on a mesh"); refuses(m(v, "setupMesh", {w.f->v, M4(A), T("geometric")}), "setupMesh on a flat"); refuses(m(v, "setupMesh", {w.m->v, N(1), T("geometric")}), "setupMesh with a number as pose"); refuses(m(v, "surfaceRadius", {}), "surfaceRadius without a position"); refuses(m(v, "noSuchMethod", {}), "an unknown method"); break;
    case 14: setupOp(w, false, w.f, SPOSE[2], "sampling"); break;
  }
}
struct Two { O a, b, alien; };
static const int NFL = 12, NTR = 9, NME = 6;
static char const * FLN[] = {"setOrigin 1", "setOrigin 2", "setNormal 1", "setNormal 2", "setFriction 0.25", "other setFriction 2", "copy other", "other copies", "setPlane from other", "setPlane of a new plane", "copyByHandle other", "wrong calls"};
static void flOp(Two & w, int o)
{
  V const & a = w.a->v, & b = w.b->v; auto & f = *w.a->f; auto & g = *w.b->f;
  switch (o) {
    case 0: both(m(a, "setOrigin", {col({1, 2, 3})}, 0), [&] { f.origin() = acme::point(1, 2, 3); }, "setOrigin"); break;
    case 1: both(m(a, "setOrigin", {col({-0.5, 0.25, 0})}, 0), [&] { f.origin() = acme::point(-0.5, 0.25, 0); }, "setOrigin"); break;
    case 2: both(m(a, "setNormal", {col({0, 0.6, 0.8})}, 0), [&] { f.normal() = acme::vec3(0, 0.6, 0.8); }, "setNormal"); break;
    case 3: both(m(a, "setNormal", {col({0.28, 0, 0.96})}, 0), [&] { f.normal() = acme::vec3(0.28, 0, 0.96); }, "setNormal"); break;
    case 4: both(m(a, "setFriction", {N(0.25)}, 0), [&] { f.friction() = 0.25; }, "setFriction"); break;
    case 5: both(m(b, "setFriction", {N(2)}, 0), [&] { g.friction() = 2; }, "setFriction"); break;
    case 6: both(m(a, "copy", {b}, 0), [&] { f.copy(g); }, "copy of a flat"); break;
    case 7: both(m(b, "copy", {a}, 0), [&] { g.copy(f); }, "copy of a flat"); break;
    case 8: { R p = m(b, "getPlane"); if (isObj(p, "acme_plane")) both(m(a, "setPlane", {p.v[0]}, 0), [&] { f.layingPlane() = acme::plane(g.layingPlane()); }, "setPlane"); break; }
    case 9: { R p = guard([&] { return Vs{IP->construct("acme_plane", {col({0.5, -1, 2}), col({0, 0.6, 0.8})})}; }); if (p.ok) both(m(a, "setPlane", {p.v[0]}, 0), [&] { f.layingPlane() = acme::plane(acme::point(0.5, -1, 2), acme::vec3(0, 0.6, 0.8)); }, "setPlane"); break; }
    case 10: both(m(a, "copyByHandle", {b->o->p["objectHandle"]}, 0), [&] { f.copy(g); }, "copyByHandle"); break;
    case 11:
      refuses(m(a, "copy", {w.alien->v}, 0), "copy of a mesh into a flat"); refuses(m(a, "isApprox", {w.alien->v}), "isApprox of a flat and a mesh"); refuses(m(a, "setOrigin", {N(1)}, 0), "setOrigin with a number"); refuses(m(a, "setNormal", {T("up")}, 0), "setNormal with a text");
      refuses(m(a, "setFriction", {col({1, 2, 3})}, 0), "setFriction with a vector"); refuses(m(a, "copy", {}, 0), "copy without an object"); refuses(m(a, "copyByHandle", {w.alien->v->o->p["objectHandle"]}, 0), "copyByHandle of a mesh"); break;
  }
  values("isApprox(other)", m(a, "isApprox", {b}), {(double)f.isApprox(g)}); values("isApprox(first)", m(b, "isApprox", {a}), {(double)g.isApprox(f)});
}
static char const * TRN[] = {"copy other", "other copies", "copyByHandle other", "setVertex1", "setVertex2", "setVertex3", "other setVertex2", "vertex 1 of other into vertex 3", "wrong calls"};
static void trOp(Two & w, int o)
{
  V const & a = w.a->v, & b = w.b->v; auto & t = *w.a->t; auto & u = *w.b->t;
  auto set = [](enve::triangleground & x, int i, acme::point const & p) { acme::point c[3] = {vtx(x, 0), vtx(x, 1), vtx(x, 2)}; c[i] = p; int id = x.id(); double mu = x.friction(); x.copy(enve::triangleground(id, mu, c)); };
  auto sv = [&](V const & v, enve::triangleground & x, int i, P3 const & p) { R q = guard([&] { return Vs{IP->construct("acme_point", {col(p)})}; }); if (q.ok) both(m(v, i == 0 ? "setVertex1" : i == 1 ? "setVertex2" : "setVertex3", {q.v[0]}, 0), [&] { set(x, i, ap(p)); }, "setVertex"); };
  switch (o) {
    case 0: both(m(a, "copy", {b}, 0), [&] { t.copy(u); }, "copy"); break; case 1: both(m(b, "copy", {a}, 0), [&] { u.copy(t); }, "copy"); break; case 2: both(m(a, "copyByHandle", {b->o->p["objectHandle"]}, 0), [&] { t.copy(u); }, "copyByHandle"); break;
    case 3: sv(a, t, 0, {-1, 0.5, 0.25}); break; case 4: sv(a, t, 1, {3, 0, 0.5}); break; case 5: sv(a, t, 2, {0.25, 4, -0.5}); break; case 6: sv(b, u, 1, {2, -1, 1}); break;
    case 7: { R p = m(b, "getVertex1"); acme::point v = vtx(u, 0); if (isObj(p, "acme_point")) both(m(a, "setVertex3", {p.v[0]}, 0), [&] { set(t, 2, v); }, "setVertex3"); break; }
    case 8: refuses(m(a, "copy", {w.alien->v}, 0), "copy of a flat into a triangle"); refuses(m(a, "copyByHandle", {w.alien->v->o->p["objectHandle"]}, 0), "copyByHandle of a flat"); refuses(m(a, "setVertex1", {w.alien->v}, 0), "setVertex1 with a flat"); refuses(m(a, "setVertex2", {}, 0), "setVertex2 without a point"); refuses(m(a, "copy", {}, 0), "copy without an object"); break;
  }
}
static char const * MEN[] = {"copy other", "other copies", "copyByHandle other", "new object in place of other", "wrong calls", "drop other, take a new one"};
static void meOp(Two & w, int o)
{
  V a = w.a->v, b = w.b->v;
  switch (o) {
    case 0: both(m(a, "copy", {b}, 0), [&] { w.a->m->copy(*w.b->m); }, "copy"); break; case 1: both(m(b, "copy", {a}, 0), [&] { w.b->m->copy(*w.a->m); }, "copy"); break; case 2: both(m(a, "copyByHandle", {b->o->p["objectHandle"]}, 0), [&] { w.a->m->copy(*w.b->m); }, "copyByHandle"); break;
    case 3: { O n = mkMesh(3); if (n) w.b = n; break; }
    case 5: { b = nullptr; w.b = nullptr; w.b = mkMesh(0); break; }
    case 4:
      refuses(m(a, "copy", {w.alien->v}, 0), "copy of a flat into a mesh"); refuses(m(a, "copyByHandle", {w.alien->v->o->p["objectHandle"]}, 0), "copyByHandle of a flat"); refuses(m(a, "copy", {}, 0), "copy without an object");
      refuses(create(MESH, {T("./missing.rdf")}), "a missing file"); refuses(create(MESH, {T("./missing.obj"), N(1)}), "a missing file"); refuses(create(MESH, {T("./bad.rdf")}), "a malformed file"); refuses(create(MESH, {T("./c.txt"), N(1)}), "a file with another extension"); refuses(create(MESH, {T("./d.OBJ"), N(1)}), "a file with another extension");
      refuses(create(MESH, {T("./a.rdf"), M4(aff(MP)), N(1)}), "an *.rdf file with three arguments"); refuses(create(MESH, {T("./b.obj"), M4(aff(MP))}), "an *.obj file with a matrix as friction"); refuses(create(MESH, {T("./b.obj"), N(1), col({1, 2, 3})}), "an *.obj file with a vector as pose"); refuses(create(MESH, {T("./b.obj"), N(1), M4(aff(MP)), N(1)}), "an *.obj file with four arguments"); refuses(create(MESH, {N(3)}), "a number as file name"); break;
  }
}
// every handle made by 'new' is deleted once, when its last reference goes
static void lifetimes(std::string const & when, size_t objects)
{
  size_t own = 0; for (auto const & h : hs.own) if (h.second <= TRI) ++own;
  MC_OK(own == objects, "lifetime", "%s: %zu MEX objects are alive with %zu objects in use (%s)", context.c_str(), own, objects, when.c_str());
  for (auto const & e : IP->dtorErrors) if (e[0] != '?') mc::fail("lifetime", "%s: deleting an object failed: %s", context.c_str(), e.c_str());
  IP->dtorErrors.clear();
}
static void finishCase()
{
  for (auto const & h : hs.temp) freeAny(h.first, h.second); hs.temp.clear();
  for (auto const & h : hs.own) if (h.second > TRI) freeAny(h.first, h.second); hs.own.clear(); IP->dtorErrors.clear(); IP->drawn.clear(); mx::clear();
}
static bool skipDelete = false;
template <class Op> static void runTwo(O a, O b, O alien, std::vector<int> const & seq, Op op, bool pictures)
{
  if (a && b && alien) {
    Two w{a, b, alien}; a.reset(); b.reset(); alien.reset();
    if (seq.size() <= 1) { check(w.a, pictures); check(w.b, pictures); }
    for (size_t i = 0; i < seq.size(); ++i) { op(w, seq[i]); if (!w.b) break; IP->dtorErrors.clear(); if (i + 1 == seq.size() || i + 2 == seq.size()) { check(w.a, pictures && i + 1 == seq.size()); check(w.b, false); check(w.alien, false); } lifetimes("during the history", 3); }
    mc::nontrivial();
    if (w.b) { // an explicit delete, too
      V gone = w.b->v; R r = m(gone, "delete", {}, 0); if (!r.skip) { MC_OK(r.ok, "refused", "%s: delete() raised an error: %s", context.c_str(), r.err.c_str()); lifetimes("after delete()", 2); refuses(m(gone, "type"), "a method of a deleted object"); }
      check(w.a, false);
    }
  }
  a.reset(); b.reset(); alien.reset();
  lifetimes("after the last reference", 0); finishCase(); (void)skipDelete;
}
static void runShell(int sp, std::vector<int> const & seq, bool pictures)
{
  {
    World w; w.s = mkShell(sp); w.f = mkFlat(0); w.g = mkFlat(1); w.m = mkMesh(sp % 2);
    if (w.s && w.f && w.g && w.m) {
      for (size_t i = 0; i < seq.size(); ++i) { shOp(w, seq[i]); if (i + 1 == seq.size()) check(w.s, pictures); }
      if (seq.empty()) check(w.s, pictures);
      check(w.f, false); lifetimes("during the history", 4);
    }
  }
  lifetimes("after the last reference", 0); finishCase();
}
template <class F> static void sequences(int n, int depth, F f)
{
  std::vector<int> s(depth, 0);
  while (true) { f(s); int i = depth - 1; while (i >= 0 && ++s[i] == n) s[i--] = 0; if (i < 0) return; }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv); files(); loadClasses(); bool th = mc::thorough();
  if (undecided) { mc::kase([&] { mc::note(("undecided: " + whyNot.substr(0, 60)).c_str()); mc::nontrivial(); }, [&] { return "the class files are out of the subset: " + whyNot; }); return mc::finish(); }
  auto list = [](std::vector<int> const & s, char const ** n) { std::string t; for (int o : s) t += (t.empty() ? "" : "; ") + std::string(n[o]); return t; };
  for (int sp = 0; sp < 3; ++sp) for (int depth = 0; depth <= (th ? 4 : 3); ++depth) sequences(NSH, depth, [&](std::vector<int> const & s) {
    bool pic = depth <= (th ? 2 : 1);
    mc::kase([&] { context = mc::fmt("shell %d: ", sp) + list(s, SHN); runShell(sp, s, pic); mc::trace(); }, [&] { return mc::fmt("shell %d: ", sp) + list(s, SHN); }); });
  for (int k = 0; k < 3; ++k) {
    int n = k == 0 ? NFL : k == 1 ? NTR : NME; char const ** nm = k == 0 ? FLN : k == 1 ? TRN : MEN; int first = k == 2 ? 0 : -1, last = k == 2 ? 4 : 3;
    for (int b = first; b < last; ++b) for (int depth = 0; depth <= (th ? 4 : 3); ++depth) sequences(n, depth, [&](std::vector<int> const & s) {
      mc::kase([&] {
        context = mc::fmt("%s 0 and %d: ", CN[k == 0 ? FLAT : k == 1 ? TRI : MESH], b) + list(s, nm);
        if (k == 0) runTwo(mkFlat(0), mkFlat(b), mkMesh(1), s, flOp, depth <= 1); else if (k == 1) runTwo(mkTri(0), mkTri(b), mkFlat(1), s, trOp, depth <= 1); else runTwo(mkMesh(0), mkMesh(b), mkFlat(0), s, meOp, depth <= 1);
        mc::trace();
      }, [&] { return mc::fmt("%s 0 and %d: ", CN[k == 0 ? FLAT : k == 1 ? TRI : MESH], b) + list(s, nm); }); });
  }
  return mc::finish();
}
