// Reference for geometric enveloping of a rib over triangles, computed in the
// rib's own frame from the definition (chords cut from the rib disk).
#ifndef CHORD_HH
#define CHORD_HH
#include "common.hh"
struct RibRef { double r, y, w; };
struct TriRef { P3 v[3]; double f; };
struct ChordAgg { bool hit = false, undecided = false; double area = 0, vol = 0, fr = 0; P3 pt = {0,0,0}, n = {0,0,0}; double depth = 0; int chords = 0; };

inline P3 tnormal(TriRef const & t) { P3 n = unit(cross(t.v[1] - t.v[0], t.v[2] - t.v[0])); return n[2] < 0 ? -1.0 * n : n; }
inline P3 tolocal(M3 const & R, P3 const & d) { return {dot(R[0], d), dot(R[1], d), dot(R[2], d)}; }

inline ChordAgg chordAgg(std::vector<TriRef> const & ts, RibRef const & rb, Pose const & ps, double eps = 1e-7)
{
  ChordAgg o;
  M3 R = rot(ps); P3 org = {ps.x, ps.y, ps.z}; P3 c = org + rb.y * R[1];
  double r = rb.r;
  P3 pt = {0,0,0}, nn = {0,0,0}; double fr = 0;
  for (auto const & t : ts) {
    P3 q[3]; double s[3]; double ext = 0;
    for (int k = 0; k < 3; ++k) { q[k] = tolocal(R, t.v[k] - c); s[k] = q[k][1]; ext = std::max(ext, norm(t.v[k] - t.v[(k+1)%3])); }
    double tol = eps * (1 + ext);
    int pos = 0, neg = 0, zero = 0;
    for (int k = 0; k < 3; ++k) { if (s[k] > tol) ++pos; else if (s[k] < -tol) ++neg; else ++zero; }
    if (zero == 0 && (pos == 0 || neg == 0)) continue;
    P3 nt = tnormal(t);
    double sphi = std::sqrt(std::max(0.0, 1 - std::pow(dot(nt, R[1]), 2)));
    double p[2][2]; int np = 0;
    for (int k = 0; k < 3 && np < 2; ++k) {
      int j = (k + 1) % 3;
      if ((s[k] > 0) != (s[j] > 0)) { double u = s[k] / (s[k] - s[j]); p[np][0] = q[k][0] + u * (q[j][0] - q[k][0]); p[np][1] = q[k][2] + u * (q[j][2] - q[k][2]); ++np; }
    }
    // decide whether anything near the disk is at stake before giving up
    if (zero) {
      double lo = 1e300; for (int k = 0; k < 3; ++k) lo = std::min(lo, norm(q[k]));
      if (lo - ext > r * 1.01) continue;
      o.undecided = true; return o;
    }
    if (np < 2) continue;
    double dx = p[1][0] - p[0][0], dz = p[1][1] - p[0][1], L = std::hypot(dx, dz);
    // line against circle
    if (L < 1e-12) { if (std::hypot(p[0][0], p[0][1]) < r) { o.undecided = true; return o; } continue; }
    double ux = dx / L, uz = dz / L, a1 = p[0][0] * ux + p[0][1] * uz, dist = std::abs(p[0][0] * uz - p[0][1] * ux);
    double h2 = r * r - dist * dist;
    if (h2 < -5e-8) continue;
    if (h2 < 5e-8) { // a grazing line: at stake only when the piece reaches the rim point
      if (-a1 >= -1e-3 && -a1 <= L + 1e-3) { o.undecided = true; return o; }
      continue;
    }
    double h = std::sqrt(h2), t0 = std::max(0.0, -a1 - h), t1 = std::min(L, -a1 + h);
    if (std::abs(t1 - t0) < 1e-6) { o.undecided = true; return o; }
    if (t1 < t0) continue;
    if (sphi < 0.01) { o.undecided = true; return o; }
    double A[2] = {p[0][0] + t0 * ux, p[0][1] + t0 * uz}, B[2] = {p[0][0] + t1 * ux, p[0][1] + t1 * uz};
    double ra = std::hypot(A[0], A[1]), rbn = std::hypot(B[0], B[1]);
    if (dist < 1e-4 * r && (t0 < -a1 + 0.01 * r) && (t1 > -a1 - 0.01 * r)) { o.undecided = true; return o; } // chord through the centre: direction ill-conditioned
    double ang = std::atan2(std::abs(A[0] * B[1] - A[1] * B[0]), A[0] * B[0] + A[1] * B[1]);
    double vol = (r * r * ang / 2 - std::abs(A[0] * B[1] - A[1] * B[0]) / 2) * rb.w;
    double bx = A[0] / ra + B[0] / rbn, bz = A[1] / ra + B[1] / rbn, bn = std::hypot(bx, bz); bx /= bn; bz /= bn;
    double rc = 2 * ra * rbn / (ra + rbn) * std::cos(ang / 2);
    P3 pc = c + rc * bx * R[0] + rc * bz * R[2];
    P3 nc = unit((-bx) * R[0] + (-bz) * R[2] + dot(nt, R[1]) * R[1]);
    o.area += (t1 - t0) * rb.w; o.vol += vol; fr += vol * t.f; pt = pt + vol * pc; nn = nn + vol * nc; ++o.chords;
  }
  if (o.chords == 0) return o;
  if (o.vol < 1e-10 * r * r * rb.w) { o.undecided = true; return o; } // radial pieces only: no volume to speak of
  o.hit = true; o.pt = (1 / o.vol) * pt; o.fr = fr / o.vol;
  if (norm(nn) < 0.05 * o.vol) { o.undecided = true; return o; }
  o.n = unit(nn);
  o.depth = r - norm(o.pt - c);
  return o;
}
#endif
