#include "meshfile.hh"
static long long cnt = 0;
static void one(std::vector<std::string> const & l, int style)
{
  bool crlf = style & 1, fin = !(style & 2); int pose = (style >> 2) & 7;
  mc::kase([&] {
    Ref r = refRdf(l, 0);
    runText(l, crlf, fin, pose, r, "t.rdf", [](char const * f, acme::affine const & p) { return std::unique_ptr<enve::ground::mesh>(new enve::ground::mesh(f, p)); });
  }, [&] { return mc::fmt("pose %s: ", poses()[pose].name) + show(l, crlf, fin); });
}
static void styles(std::vector<std::string> const & l)
{ // every text in LF and CR-LF form; pose and final newline rotate
  ++cnt;
  one(l, 0 | (int)((cnt % 2) << 1) | (int)((cnt / 2 % 8) << 2));
  one(l, 1 | (int)((cnt / 3 % 2) << 1) | (int)((cnt / 5 % 8) << 2));
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<std::string> alpha = {
    "[NODES]", "[ELEMENTS]", "0 0 0 0", "1 1 0 0.5", "0 1 2 0.5", "2 1 0 1.25", "", "# c", "{ id x y z }", "% 1 2 3 4", "   ",
    "  1   1.5  -2.25   1e-1  ", "1 2 3 0.75 ", "0 1 2 -1", "0 1 2", "0 1 2 1 7", "-1 1 2 1", "0 -2 1 1", "0 1 -1 1", "3 0 0 1", "0 3 1 1", "0 1 3 1", "0 x 1 1", "NODES", "ELEMENTS x",
    "[NODES] ", " [ELEMENTS]", "  # indented", "0 1 2 0", "0 4 1 1", "100000 1 2 1", "0 99999999 2 1",
    "0\t1 2 0.5", "\t2 1 0 0.75", "0 1\t2 1 1", "0 1 2\t1", "0 1 2 1\t1", "3\t1 1 1", "9 4\t1 1 1", "3 1 1 1\t"};
  std::vector<std::string> base = {"[NODES]", "0 0 0 0", "1 1 0 0.5", "2 0 1 0", "[ELEMENTS]", "0 1 2 0.5"};
  std::vector<std::string> base2 = {"{ c }", "[NODES]", "5 -1.5 2.5e0 .25", "6 +1 0 0", "7 0 1 0", "8 1 1 1", "", "[ELEMENTS]", "{ n1 n2 n3 mu }", "1 2 0 1.0", "0 2 3 0.125", "3 1 0 7", "[NODES]", "9 4 4 4", "[ELEMENTS]", "4 3 0 1"};
  deviate(base, alpha, th ? 3 : 2, styles);
  deviate(base2, alpha, th ? 2 : 1, styles);
  // whitespace: every subset of gaps doubled / padded in a data line
  for (int mask = 0; mask < 64; ++mask)
    for (int k = 0; k < 2; ++k) {
      auto ln = [&](std::vector<char const *> w) { std::string s; for (size_t i = 0; i < 4; ++i) { if (i || (mask & 16)) s += (i && !(mask >> (i-1) & 1)) ? " " : "   "; s += w[i]; } if (mask & 8) s += "  "; if (mask & 32) s += " "; return s; };
      std::vector<std::string> l = {"[NODES]", ln({"0","0","0.5","0"}), ln({"1","1","0","0"}), "2 0 1 0", "[ELEMENTS]", ln({"0","1","2","0.5"}), "2 1 0 1"};
      for (int st = 0; st < 32; ++st) one(l, st);
    }
  sequences({"[NODES]", "[ELEMENTS]", "0 0 0 0", "1 1 0 0", "2 0 1 0.5", "0 1 2 1", "1 1 0 0.5", "0 0 0 2", "", "# c", "0 0 0 -1", "0 0"}, th ? 5 : 4, styles);
  // every combination of number spellings in the three coordinates of a node, and each as a friction
  {
    std::vector<std::string> sp = spellings(); int k = 0;
    for (auto const & x : sp) for (auto const & y : sp) for (auto const & z : sp) {
      std::string n = " " + x + " " + y + " " + z, fr = sp[k % sp.size()]; ++k;
      std::vector<std::string> l = {"[NODES]", "0" + n, "1 50 0 0.5", "2 0 -40 0.25", "[ELEMENTS]", k % 3 == 0 ? "0 1 2 " : k % 3 == 1 ? "1 2 0 " : "2 0 1 "};
      l.back() += fr; one(l, k % 32);
    }
    for (auto const & f : sp) for (auto const & g : sp) one({"[NODES]", "0 0 0 0", "1 1 0 0.5", "2 0 1 0", "[ELEMENTS]", "0 1 2 " + f, "2 1 0 " + g}, (int)(f.size() + 7 * g.size()) % 32);
  }
  for (char const * f : {"nan", "-nan", "-inf", "-0.000001", "-1e-300"}) for (int st = 0; st < 32; ++st) one({"[NODES]", "0 0 0 0", "1 1 0 0.5", "2 0 1 0", "[ELEMENTS]", "0 1 2 0.5", std::string("2 1 0 ") + f}, st);
  // many elements: counters and storage growth
  for (int n : {1, 2, 7, 50, 333, 3000, th ? 120000 : 27000}) {
    std::vector<std::string> l = {"[NODES]"};
    for (int i = 0; i <= n + 1; ++i) l.push_back(mc::fmt("%d %d %.1f %.17g", i, i, 0.7 * (i % 2), 0.1 * (i % 5)));
    l.push_back("[ELEMENTS]");
    for (int i = 0; i < n; ++i) l.push_back(mc::fmt("%d %d %d %g", i, i + 1, i + 2, 0.5 + 0.3 * (i % 4)));
    one(l, 0); one(l, 5);
  }
  // long lines: wide gaps, comments and numbers of many digits
  for (int n : {60, 130, 260, 520, 1030, 4100, 9000, th ? 140000 : 33000}) for (int k = 0; k < 8; ++k) {
    std::string sp(n, ' '), z(n, '0');
    std::vector<std::string> l = {"[NODES]", "0 0 0 0.25", "1 1 0 0.5", "2 0 1 0", "[ELEMENTS]", "0 1 2 0.5", "2 1 0 1"};
    switch (k) {
      case 0: l[1] = "0 0" + sp + "0 0.25"; break; case 1: l[2] = "1" + sp + "1 0 0.5"; break; case 2: l[5] = "0 1 2" + sp + "0.5"; break; case 3: l[6] = "2 1 0 1" + sp; break;
      case 4: l.insert(l.begin() + 2, "# " + std::string(n, 'x')); break; case 5: l.insert(l.begin() + 6, "{ " + sp + " }"); break; case 6: l[2] = "1 1.5" + z + " 0 0.5"; break; default: l[5] = sp + "0 1 2 0.5" + z + "1";
    }
    for (int st : {0, 5, 9}) one(l, st);
  }
  // file name and existence
  for (char const * name : {"missing.rdf", "t.obj", "t.txt", "t.rdf.bak", "rdf", "", "a"})
    mc::kase([&] {
      bool threw = false;
      { std::ofstream o("t.rdf.bak"); o << "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 1\n"; std::ofstream o2("t.txt"); o2 << "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 1\n"; }
      try { enve::ground::mesh m(name, aff(M3{P3{1,0,0}, P3{0,1,0}, P3{0,0,1}}, P3{0,0,0})); } catch (std::exception const &) { threw = true; }
      MC_OK(threw, "accepted-name", "file name '%s' did not raise an error", name);
    }, [&] { return mc::fmt("file name '%s'", name); });
  return mc::finish();
}
