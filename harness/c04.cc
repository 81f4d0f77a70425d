#include "meshfile.hh"
static long long cnt = 0;
static const double FR[5] = {1.0, 0.25, 0.0, -0.5, NAN};
static void one(std::vector<std::string> const & l, int style, double friction)
{
  bool crlf = style & 1, fin = !(style & 2); int pose = (style >> 2) & 7;
  mc::kase([&] {
    Ref r = refObj(l, friction);
    runText(l, crlf, fin, pose, r, "t.obj", [&](char const * f, acme::affine const & p) { return std::unique_ptr<enve::ground::mesh>(new enve::ground::mesh(f, friction, p)); });
  }, [&] { return mc::fmt("friction %g pose %s: ", friction, poses()[pose].name) + show(l, crlf, fin); });
}
static void styles(std::vector<std::string> const & l)
{
  ++cnt;
  one(l, 0 | (int)((cnt % 2) << 1) | (int)((cnt / 2 % 8) << 2), FR[cnt / 7 % 2]);
  one(l, 1 | (int)((cnt / 3 % 2) << 1) | (int)((cnt / 5 % 8) << 2), FR[cnt / 11 % 2]);
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<std::string> alpha = {
    "v 0 0 0", "v 1 0 0.5", "v  -1.5   2e0  .25 ", "  v 3 3 3", "f 1 2 3", "f 3 2 1", "f  2   1 3  ", " f 1 3 2", "", "# c", "   ", "vn 0 0 1", "vt 0 0", "g grp", "usemtl m", "s off", "o obj",
    "v 1 2", "v 1 2 3 4", "v", "f 1 2", "f 1 2 3 4", "f", "f 0 1 2", "f 1 0 2", "f 1 2 0", "f -1 2 3", "f 1 -2 3", "f 1 2 -3", "f -1 -2 -3", "f 4 1 2", "f 1 4 2", "f 1 2 4", "f 9999999 1 2", "v a 0 0", "f a 1 2", "% f 1 2 3", "#f 1 2 3", "vp 1 2 3", "mtllib f 1 2 3",
    "v\t1 1 1.5", "v\t9 0 0 0", "f\t3 2 1", "f\t3 1 2 3", "\tf 2 3 1", "f 3\t1 2", "f 1/3/2 2/1/3 3/2/1", "f 2//1 3//1 1//1", "f 1/1/1 2/2/2", "f 1/1/1 2/2/2 4/4/4", "f 0/1/1 1/1/1 2/2/2"};
  std::vector<std::string> base = {"v 0 0 0", "v 1 0 0.5", "v 0 1 0", "f 1 2 3"};
  std::vector<std::string> base2 = {"# head", "o s", "v 0 0 0", "v 1 0 0", "v 0 1 0", "vn 0 0 1", "v 1 1 1", "f 1 2 3", "g a", "f 2 4 3", "v 5 5 5", "f 5 1 4"};
  deviate(base, alpha, th ? 3 : 2, styles);
  deviate(base2, alpha, th ? 2 : 1, styles);
  for (int mask = 0; mask < 64; ++mask)
    for (int k = 0; k < 2; ++k) {
      auto ln = [&](std::vector<char const *> w) { std::string s; for (size_t i = 0; i < 4; ++i) { if (i || (mask & 16)) s += (i && !(mask >> (i-1) & 1)) ? " " : "   "; s += w[i]; } if (mask & 8) s += "  "; if (mask & 32) s += " "; return s; };
      std::vector<std::string> l = {ln({"v","0","0.5","0"}), ln({"v","1","0","0"}), "v 0 1 0", ln({"f","1","2","3"}), "f 3 2 1"};
      for (int st = 0; st < 32; ++st) one(l, st, FR[k]);
    }
  sequences({"v 0 0 0", "v 1 0 0", "v 0 1 0.5", "f 1 2 3", "f 2 1 1", "f 1 1 1", "", "# c", "g x", "f 2 3", "v 1 2"}, th ? 5 : 4, styles);
  {
    std::vector<std::string> sp = spellings(); int k = 0;
    for (auto const & x : sp) for (auto const & y : sp) for (auto const & z : sp) {
      ++k; one({"v " + x + " " + y + " " + z, "v 50 0 0.5", "v 0 -40 0.25", k % 3 == 0 ? "f 1 2 3" : k % 3 == 1 ? "f 2 3 1" : "f 3 1 2"}, k % 32, k % 2 ? 0.1 : 1.0 / 3);
    }
  }
  for (int st = 0; st < 32; ++st) for (double f : FR) one(base2, st, f);
  for (int n : {1, 2, 7, 50, 333, 3000, th ? 120000 : 27000}) {
    std::vector<std::string> l;
    for (int i = 0; i <= n + 1; ++i) l.push_back(mc::fmt("v %d %.1f %.17g", i, 0.7 * (i % 2), 0.1 * (i % 5)));
    for (int i = 0; i < n; ++i) l.push_back(mc::fmt("f %d %d %d", i + 1, i + 2, i + 3));
    one(l, 0, 1.0); one(l, 5, 0.5);
  }
  // long lines: wide gaps, comments and numbers of many digits
  for (int n : {60, 130, 260, 520, 1030, 4100, 9000, th ? 140000 : 33000}) for (int k = 0; k < 7; ++k) {
    std::string sp(n, ' '), z(n, '0');
    std::vector<std::string> l = {"v 0 0 0", "v 1 0 0.5", "v 0 1 0", "f 1 2 3", "f 3 2 1"};
    switch (k) {
      case 0: l[0] = "v 0" + sp + "0 0.25"; break; case 1: l[1] = "v" + sp + "1 0 0.5" + sp; break; case 2: l[3] = "f 1 2" + sp + "3"; break;
      case 3: l.insert(l.begin() + 1, "# " + std::string(n, 'x')); break; case 4: l.insert(l.begin() + 4, "usemtl" + sp + "m"); break; case 5: l[2] = "v 0 1.5" + z + " 0"; break; default: l[4] = sp + "f 3 2 1";
    }
    for (int st : {0, 5, 9}) one(l, st, 0.75);
  }
  for (char const * name : {"missing.obj", "t.rdf", "t.txt", "t.obj.bak", "obj", "", "a"})
    mc::kase([&] {
      bool threw = false;
      { std::ofstream o("t.obj.bak"); o << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"; std::ofstream o2("t.txt"); o2 << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"; }
      try { enve::ground::mesh m(name, 1.0, aff(M3{P3{1,0,0}, P3{0,1,0}, P3{0,0,1}}, P3{0,0,0})); } catch (std::exception const &) { threw = true; }
      MC_OK(threw, "accepted-name", "file name '%s' did not raise an error", name);
    }, [&] { return mc::fmt("file name '%s'", name); });
  return mc::finish();
}
