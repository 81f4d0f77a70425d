// Shared helpers of the enve harnesses: construction of grounds and poses,
// plain-number reference geometry written independently of the library.
#ifndef HARNESS_COMMON_HH
#define HARNESS_COMMON_HH
#include "mc.hh"
#include "enve.hh"
#include <array>

typedef enve::triangleground::vecptr TVec;
typedef std::array<double,3> P3;

inline P3 operator+(P3 const & a, P3 const & b) { return {a[0]+b[0], a[1]+b[1], a[2]+b[2]}; }
inline P3 operator-(P3 const & a, P3 const & b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
inline P3 operator*(double s, P3 const & a) { return {s*a[0], s*a[1], s*a[2]}; }
inline double dot(P3 const & a, P3 const & b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline P3 cross(P3 const & a, P3 const & b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline double norm(P3 const & a) { return std::sqrt(dot(a,a)); }
inline P3 unit(P3 const & a) { double n = norm(a); return {a[0]/n, a[1]/n, a[2]/n}; }
template <class V> inline P3 p3(V const & v) { return {v[0], v[1], v[2]}; }
inline acme::point ap(P3 const & a) { return acme::point(a[0], a[1], a[2]); }
inline acme::vec3 av(P3 const & a) { return acme::vec3(a[0], a[1], a[2]); }
inline bool near(double a, double b, double tol = 1e-9) { return std::abs(a-b) <= tol * (1.0 + std::max(std::abs(a), std::abs(b))); }
inline bool near(P3 const & a, P3 const & b, double tol = 1e-9)
{ return near(a[0],b[0],tol) && near(a[1],b[1],tol) && near(a[2],b[2],tol); }
inline bool finite(P3 const & a) { return std::isfinite(a[0]) && std::isfinite(a[1]) && std::isfinite(a[2]); }
inline std::string str(P3 const & a) { return mc::fmt("(%.10g,%.10g,%.10g)", a[0], a[1], a[2]); }

inline enve::triangleground::ptr tri(int id, double f, P3 const & a, P3 const & b, P3 const & c)
{ return std::make_shared<enve::triangleground const>(id, f, ap(a), ap(b), ap(c)); }

inline std::string tstr(TVec const & v)
{
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 12; ++i)
    s += mc::fmt("%s#%d f%g %s%s%s", i ? " " : "", (int)v[i]->id(), (double)v[i]->friction(),
      str(p3(v[i]->vertex(0))).c_str(), str(p3(v[i]->vertex(1))).c_str(), str(p3(v[i]->vertex(2))).c_str());
  if (v.size() > 12) s += mc::fmt(" ... %zu triangles", v.size());
  return s + "]";
}

struct Pose { double x, y, z, yaw, camber, spin; };
inline std::string str(Pose const & p)
{ return mc::fmt("pose(x=%.6g,y=%.6g,z=%.6g,yaw=%.6g,camber=%.6g,spin=%.6g)", p.x, p.y, p.z, p.yaw, p.camber, p.spin); }
typedef std::array<P3,3> M3; // columns
inline M3 rot(Pose const & p)
{ // Rz(yaw) Rx(camber) Ry(spin), columns
  double cz = std::cos(p.yaw), sz = std::sin(p.yaw), cx = std::cos(p.camber), sx = std::sin(p.camber), cy = std::cos(p.spin), sy = std::sin(p.spin);
  P3 ex = {cy, 0, -sy}, ey = {0, 1, 0}, ez = {sy, 0, cy};
  auto app = [&](P3 v) {
    P3 a = {v[0], cx*v[1]-sx*v[2], sx*v[1]+cx*v[2]};
    return P3{cz*a[0]-sz*a[1], sz*a[0]+cz*a[1], a[2]};
  };
  return {app(ex), app(ey), app(ez)};
}
inline P3 mul(M3 const & m, P3 const & v) { return v[0]*m[0] + (v[1]*m[1] + v[2]*m[2]); }
inline acme::affine aff(M3 const & m, P3 const & t)
{
  acme::affine a; a.matrix() = acme::mat4::Identity();
  for (int r = 0; r < 3; ++r) { for (int c = 0; c < 3; ++c) a.matrix()(r,c) = m[c][r]; a.matrix()(r,3) = t[r]; }
  return a;
}
inline acme::affine aff(Pose const & p) { return aff(rot(p), P3{p.x, p.y, p.z}); }

static const double DEG = 3.14159265358979323846 / 180.0;
static const double MPI = 3.14159265358979323846;
static const char * const METHODS[2] = {"geometric", "sampling"};

#endif
