// C02: operation histories over two meshes against a list-of-triangles model.
#include "common.hh"

struct MT { P3 v[3]; double f; };
typedef std::vector<MT> Model;

static void wr(char const * name, char const * text) { std::ofstream f(name); f << text; }
static const double OFF = 3.0; // pose offset used by one load operation

static Model mk(std::vector<std::array<P3,3>> const & v, std::vector<double> const & f, P3 off = P3{0,0,0})
{ Model m; for (size_t i = 0; i < v.size(); ++i) m.push_back({{v[i][0]+off, v[i][1]+off, v[i][2]+off}, f[i % f.size()]}); return m; }

static const std::vector<std::array<P3,3>> R1 = {{{{0,0,0},{1,0,0},{0,1,0}}}, {{{1,0,0},{1,1,0},{0,1,0}}}};
static const std::vector<std::array<P3,3>> O1 = {{{{0,0,2},{1,0,2},{0,1,2}}}, {{{1,0,2},{1,1,3},{0,1,2}}}, {{{0,0,2},{0,1,2},{-1,1,2}}}};
static const std::vector<std::array<P3,3>> V1 = {{{{-1,-1,0},{0,-1,0},{-1,0,1}}}, {{{0.5,0.5,0},{2,0.5,0},{0.5,2,0}}}, {{{5,5,5},{6,5,5},{5,6,5}}}, {{{0,0,0},{1,0,0},{0,1,0}}}};

static TVec vecV1() { TVec t; for (size_t i = 0; i < V1.size(); ++i) t.push_back(tri((int)(40 - 3 * i), 0.25 * (i + 1), V1[i][0], V1[i][1], V1[i][2])); return t; }
static Model modV1() { return mk(V1, {0.25, 0.5, 0.75, 1.0}); }

enum Op { LOAD_R, LOAD_R_OFF, LOAD_O, LOAD_ONE, BAD_INDEX, BAD_FRICTION, BAD_EMPTY, BAD_MISSING, BAD_EXT, BAD_OBJ_INDEX, CLEAR, COPY, NEW_VEC, NEW_EMPTY, REBUILD, QUERY, PRINT, NOPS };
static const char * NAMES[NOPS] = {"load(r)", "load(r,offset)", "load(o)", "load(one)", "load(bad index)", "load(neg friction)", "load(no triangles)", "load(missing)", "load(wrong ext)", "load(bad obj)", "clear", "copy(other)", "new(vector)", "new()", "buildAABBtree", "query", "print"};

static acme::affine ident() { return aff(M3{P3{1,0,0}, P3{0,1,0}, P3{0,0,1}}, P3{0,0,0}); }
static acme::affine offs() { return aff(M3{P3{1,0,0}, P3{0,1,0}, P3{0,0,1}}, P3{OFF,0,0}); }

struct Sys {
  std::unique_ptr<enve::ground::mesh> m[2];
  Model mod[2];
  Sys() { for (auto & x : m) x.reset(new enve::ground::mesh()); }
};

template <class F> static void mustThrow(F f, char const * what)
{
  bool threw = false;
  try { f(); } catch (std::exception const &) { threw = true; }
  MC_OK(threw, "accepted-bad-file", "%s did not raise an error", what);
}

static void apply(Sys & s, int w, Op op, bool check)
{
  enve::ground::mesh & m = *s.m[w];
  switch (op) {
    case LOAD_R:     m.load("r.rdf", ident()); s.mod[w] = mk(R1, {1.0, 0.5}); break;
    case LOAD_R_OFF: m.load("r.rdf", offs()); s.mod[w] = mk(R1, {1.0, 0.5}, P3{OFF,0,0}); break;
    case LOAD_O:     m.load("o.obj", 0.75, ident()); s.mod[w] = mk(O1, {0.75}); break;
    case LOAD_ONE:   m.load("one.rdf", ident()); s.mod[w] = mk({R1[0]}, {2.0}); break;
    case BAD_INDEX:    mustThrow([&]{ m.load("badindex.rdf", ident()); }, NAMES[op]); break;
    case BAD_FRICTION: mustThrow([&]{ m.load("badfriction.rdf", ident()); }, NAMES[op]); break;
    case BAD_EMPTY:    mustThrow([&]{ m.load("empty.rdf", ident()); }, NAMES[op]); break;
    case BAD_MISSING:  mustThrow([&]{ m.load("nofile.rdf", ident()); }, NAMES[op]); break;
    case BAD_EXT:      mustThrow([&]{ m.load("r.txt", ident()); }, NAMES[op]); break;
    case BAD_OBJ_INDEX:mustThrow([&]{ m.load("bad.obj", 0.5, ident()); }, NAMES[op]); break;
    case CLEAR: m.clear(); s.mod[w].clear(); break;
    case COPY:  m.copy(*s.m[1-w]); s.mod[w] = s.mod[1-w]; break;
    case NEW_VEC: s.m[w].reset(new enve::ground::mesh(vecV1())); s.mod[w] = modV1(); break;
    case NEW_EMPTY: s.m[w].reset(new enve::ground::mesh()); s.mod[w].clear(); break;
    case REBUILD: m.buildAABBtree(); break;
    case QUERY: { TVec t; acme::aabb::ptr b = std::make_shared<acme::aabb const>(-9., -9., -9., 9., 9., 9.); m.intersection(b, t); } break;
    case PRINT: m.print("printed.txt"); break;
    default: break;
  }
  mc::transition();
  (void)check;
}

static bool same(enve::triangleground const & t, MT const & r)
{ return p3(t.vertex(0)) == r.v[0] && p3(t.vertex(1)) == r.v[1] && p3(t.vertex(2)) == r.v[2] && t.friction() == r.f; }

static uint64_t hstate(Sys const & s)
{
  uint64_t h = 99;
  for (int w = 0; w < 2; ++w) { h = mc::mix(h, s.mod[w].size()); for (auto const & t : s.mod[w]) { for (auto const & v : t.v) for (double d : v) h = mc::mixd(h, d); h = mc::mixd(h, t.f); } }
  return h;
}

static void verify(Sys & s)
{
  static const double Q[][6] = {{-9,-9,-9,9,9,9}, {0,0,0,0,0,0}, {0.5,0.5,-1,0.75,0.75,1}, {3,0,0,3.25,0.25,0}, {3.5,0,-1,4,1,1}, {-1,1,2,-1,1,2}, {0,0,1.5,2,2,2.5}, {1,1,2.5,1,1,3.5}, {5,5,5,7,7,7}, {-1,-1,0,-0.5,-0.5,0.5}, {20,20,20,21,21,21}};
  for (int w = 0; w < 2; ++w) {
    enve::ground::mesh const & m = *s.m[w]; Model const & r = s.mod[w];
    MC_OK(m.size() == r.size() && m.vecptrTriangleground().size() == r.size(), "size", "mesh %d holds %zu triangles, expected %zu", w, (size_t)m.size(), r.size());
    if (m.size() != r.size()) continue;
    for (size_t i = 0; i < r.size(); ++i)
      MC_OK(m[i] && same(*m[i], r[i]) && m.ptrTriangleground(i) == m[i] && m.vecptrTriangleground()[i] == m[i], "element", "mesh %d element %zu is not the expected triangle", w, i);
    for (auto const & q : Q) {
      std::vector<size_t> exp, got; TVec out;
      for (size_t i = 0; i < r.size(); ++i) {
        bool o = true;
        for (int k = 0; k < 3; ++k) {
          double lo = std::min(r[i].v[0][k], std::min(r[i].v[1][k], r[i].v[2][k])), hi = std::max(r[i].v[0][k], std::max(r[i].v[1][k], r[i].v[2][k]));
          if (hi < q[k] || q[k+3] < lo) o = false;
        }
        if (o) exp.push_back(i);
      }
      acme::aabb::ptr b = std::make_shared<acme::aabb const>(q[0], q[1], q[2], q[3], q[4], q[5]);
      bool f = m.intersection(b, out);
      for (auto const & t : out) { size_t i = 0; while (i < r.size() && m[i] != t) ++i; got.push_back(i); }
      std::sort(got.begin(), got.end());
      MC_OK(got == exp && f == !exp.empty(), "query", "mesh %d query [%g..%g,%g..%g,%g..%g] returned %zu (flag %d), expected %zu", w, q[0], q[3], q[1], q[4], q[2], q[5], got.size(), (int)f, exp.size());
    }
    mc::outcome(mc::mix(m.size(), w));
  }
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  wr("r.rdf", "[NODES]\n{ c }\n0 0 0 0\n1 1 0 0\n2 0 1 0\n3 1 1 0\n[ELEMENTS]\n0 1 2 1.0\n1 3 2 0.5\n");
  wr("one.rdf", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 2.0\n");
  wr("r.txt", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 2.0\n");
  wr("o.obj", "# c\nv 0 0 2\nv 1 0 2\nv 0 1 2\nv 1 1 3\nv -1 1 2\nf 1 2 3\nf 2 4 3\nf 1 3 5\n");
  wr("badindex.rdf", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 2.0\n0 1 3 2.0\n");
  wr("badfriction.rdf", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 2.0\n0 2 1 -2.0\n");
  wr("empty.rdf", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n");
  wr("bad.obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\nf 1 2 4\n");
  int L = mc::thorough() ? 4 : 3;
  int A = 2 * NOPS;
  for (int n = 0; n <= L; ++n) {
    std::vector<int> s(n, 0);
    for (;;) {
      mc::kase([&] {
        Sys sys; bool ch = false;
        for (int i = 0; i < n; ++i) { apply(sys, s[i] / NOPS, Op(s[i] % NOPS), true); mc::state(hstate(sys)); if (!sys.mod[0].empty() || !sys.mod[1].empty()) ch = true; }
        verify(sys);
        mc::nontrivial(ch); mc::trace();
      }, [&] { std::string d; for (int i = 0; i < n; ++i) d += mc::fmt("%s%c.%s", i ? "; " : "", 'A' + s[i] / NOPS, NAMES[s[i] % NOPS]); return d; });
      int k = n - 1; while (k >= 0 && ++s[k] == A) s[k--] = 0;
      if (k < 0) break;
    }
  }
  return mc::finish();
}
