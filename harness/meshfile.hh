// C03/C04: exhaustive exploration of mesh file texts (deviation bounded around
// well-formed bases, plus every short line sequence) against a reference parser.
#ifndef MESHFILE_HH
#define MESHFILE_HH
#include "common.hh"

struct RefTri { P3 v[3]; double f; };
// lenient: a spelling the format leaves open (v/vt/vn indices): it loads what it says or is rejected
struct Ref { bool reject = false, lenient = false; std::vector<RefTri> t; };

inline std::vector<std::string> words(std::string const & l)
{
  std::vector<std::string> w; std::string c;
  for (char ch : l) { if (ch == ' ' || ch == '\t' || ch == '\r') { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) w.push_back(c);
  return w;
}
inline bool num(std::string const & s, double & d) { char * e = 0; d = std::strtod(s.c_str(), &e); return e && e != s.c_str() && !*e; }
inline bool integ(std::string const & s, long & d) { char * e = 0; d = std::strtol(s.c_str(), &e, 10); return e && e != s.c_str() && !*e; }

inline bool vertexIndex(std::string const & s, long & d, bool & lenient)
{
  size_t c = s.find('/'); if (c == std::string::npos) return integ(s, d);
  for (char ch : s.substr(c)) if (ch != '/' && (ch < '0' || ch > '9')) return false;
  lenient = true; return integ(s.substr(0, c), d);
}
inline Ref refRdf(std::vector<std::string> const & lines, double)
{
  Ref r; int sec = 0; std::vector<P3> n;
  for (auto const & l : lines) {
    std::vector<std::string> w = words(l);
    if (w.empty() || w[0][0] == '{' || w[0][0] == '%' || w[0][0] == '#') continue;
    if (w[0] == "[NODES]" || w[0] == "NODES") { sec = 1; continue; }
    if (w[0] == "[ELEMENTS]" || w[0] == "ELEMENTS") { sec = 2; continue; }
    if (sec == 1) {
      P3 p; if (w.size() != 4 || !num(w[1], p[0]) || !num(w[2], p[1]) || !num(w[3], p[2])) { r.reject = true; return r; }
      n.push_back(p);
    } else if (sec == 2) {
      long a, b, c; double f;
      if (w.size() != 4 || !integ(w[0], a) || !integ(w[1], b) || !integ(w[2], c) || !num(w[3], f)) { r.reject = true; return r; }
      long N = (long)n.size();
      if (a < 0 || b < 0 || c < 0 || a >= N || b >= N || c >= N || !(f >= 0)) { r.reject = true; return r; }
      r.t.push_back({{n[a], n[b], n[c]}, f});
    }
  }
  if (r.t.empty()) r.reject = true;
  return r;
}
inline Ref refObj(std::vector<std::string> const & lines, double friction)
{
  Ref r; std::vector<P3> n;
  for (auto const & l : lines) {
    std::vector<std::string> w = words(l);
    if (w.empty()) continue;
    if (w[0] == "v") {
      P3 p; if (w.size() != 4 || !num(w[1], p[0]) || !num(w[2], p[1]) || !num(w[3], p[2])) { r.reject = true; return r; }
      n.push_back(p);
    } else if (w[0] == "f") {
      long a, b, c;
      if (w.size() != 4 || !vertexIndex(w[1], a, r.lenient) || !vertexIndex(w[2], b, r.lenient) || !vertexIndex(w[3], c, r.lenient)) { r.reject = true; return r; }
      long N = (long)n.size();
      if (a < 1 || b < 1 || c < 1 || a > N || b > N || c > N || !(friction >= 0)) { r.reject = true; return r; }
      r.t.push_back({{n[a-1], n[b-1], n[c-1]}, friction});
    }
  }
  if (r.t.empty()) r.reject = true;
  return r;
}

struct PoseM { M3 m; P3 t; char const * name; };
inline std::vector<PoseM> poses()
{
  return {
    {{P3{1,0,0}, P3{0,1,0}, P3{0,0,1}}, {0,0,0}, "identity"},
    {{P3{0,1,0}, P3{-1,0,0}, P3{0,0,1}}, {10,-20,0.5}, "yaw90+shift"},
    {{P3{0.8,0,-0.6}, P3{0,1,0}, P3{0.6,0,0.8}}, {0,0,-3}, "pitch+shift"},
    {{P3{1,0,0}, P3{0,0,1}, P3{0,-1,0}}, {0.25,0.5,1}, "roll90+shift"},
    // any affine map may be given, not only rigid ones
    {{P3{2,0,0}, P3{0,0.5,0}, P3{0,0,-3}}, {1,2,3}, "stretch+mirror"},
    {{P3{1,0.25,0}, P3{0,1,-0.5}, P3{0.125,0,1}}, {0,0,0}, "shear"},
    {{P3{0,0,2}, P3{-2,0,0}, P3{0,2,0}}, {500000,-250000,125}, "scaled turn, far"},
    {{P3{1,0,0}, P3{0,1,0}, P3{0,0,1}}, {-1e-3,1e-6,0}, "tiny shift"},
  };
}

inline std::string show(std::vector<std::string> const & l, bool crlf, bool fin)
{ std::string s; for (size_t i = 0; i < l.size(); ++i) { s += l[i]; if (i + 1 < l.size() || fin) s += crlf ? "\\r\\n" : "\\n"; } return s; }

template <class LOAD>
inline void runText(std::vector<std::string> const & lines, bool crlf, bool fin, int pose, Ref const & r, char const * file, LOAD load)
{
  {
    FILE * f = fopen(file, "wb");
    for (size_t i = 0; i < lines.size(); ++i) { fputs(lines[i].c_str(), f); if (i + 1 < lines.size() || fin) fputs(crlf ? "\r\n" : "\n", f); }
    fclose(f);
  }
  static std::vector<PoseM> const PS = poses();
  PoseM const & ps = PS[pose];
  std::unique_ptr<enve::ground::mesh> m;
  std::string err;
  try { m = load(file, aff(ps.m, ps.t)); } catch (std::exception const & e) { err = e.what(); if (err.empty()) err = "?"; }
  mc::transition();
  if (r.reject) { MC_OK(!m, "accepted", "malformed text was accepted with %zu triangles", m ? (size_t)m->size() : 0); mc::outcome(1); return; }
  if (r.lenient && !m) { mc::outcome(2); return; }
  MC_OK((bool)m, "rejected", "well-formed text was rejected: %s", err.c_str());
  if (!m) return;
  mc::nontrivial(); mc::outcome(100 + r.t.size());
  MC_OK(m->size() == r.t.size(), "count", "%zu triangles, file has %zu", (size_t)m->size(), r.t.size());
  if (m->size() != r.t.size()) return;
  acme::aabb::ptr all = std::make_shared<acme::aabb const>(-1e9, -1e9, -1e9, 1e9, 1e9, 1e9);
  TVec q; m->intersection(all, q);
  MC_OK(q.size() == r.t.size(), "query", "whole-space query finds %zu of %zu", q.size(), r.t.size());
  for (size_t i = 0; i < r.t.size(); ++i) {
    enve::triangleground const & t = *(*m)[i];
    for (int k = 0; k < 3; ++k) {
      P3 e = ps.t + mul(ps.m, r.t[i].v[k]);
      MC_OK(near(p3(t.vertex(k)), e, 1e-12), "vertex", "triangle %zu vertex %d is %s, expected %s", i, k, str(p3(t.vertex(k))).c_str(), str(e).c_str());
    }
    MC_OK(t.friction() == r.t[i].f, "friction", "triangle %zu friction %g, expected %g", i, (double)t.friction(), r.t[i].f);
    MC_OK(t.id() == (int)i, "id", "triangle %zu has id %d", i, (int)t.id());
  }
}

// all texts within D deviations (insert / replace / delete one line) of a base
template <class RUN>
inline void deviate(std::vector<std::string> const & base, std::vector<std::string> const & alpha, int D, RUN run)
{
  std::function<void(std::vector<std::string> const &, size_t, int)> rec = [&](std::vector<std::string> const & l, size_t from, int d) {
    run(l);
    if (d == 0) return;
    for (size_t i = from; i <= l.size(); ++i) {
      for (auto const & a : alpha) { std::vector<std::string> c(l); c.insert(c.begin() + i, a); rec(c, i + 1, d - 1); }
      if (i < l.size()) {
        for (auto const & a : alpha) if (a != l[i]) { std::vector<std::string> c(l); c[i] = a; rec(c, i + 1, d - 1); }
        std::vector<std::string> c(l); c.erase(c.begin() + i); rec(c, i, d - 1);
      }
    }
  };
  rec(base, 0, D);
}
// spellings of numbers; most need the full precision of a double
inline std::vector<std::string> spellings()
{ return {"0.1", "-123.456789012345", "1e-9", "1.23456789E3", "+7.3", "-.3", "3.", "1000000.1234567", "0000.7", "-2e+2", "16777217", "0.333333333333333315"}; }
// all sequences of at most n lines
template <class RUN>
inline void sequences(std::vector<std::string> const & alpha, int n, RUN run)
{
  std::vector<std::string> l;
  std::function<void(int)> rec = [&](int d) { run(l); if (!d) return; for (auto const & a : alpha) { l.push_back(a); rec(d - 1); l.pop_back(); } };
  rec(n);
}
#endif
