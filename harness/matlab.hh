// A small interpreter for the part of the MATLAB language that toolbox classes
// use: class definitions with handle semantics, control flow, matrices, cells,
// strings, structures, and calls of MEX functions. What it does not know raises
// Unsupported, which the checks treat as "not decided", never as a violation.
#ifndef MATLAB_HH
#define MATLAB_HH
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace ml {
struct Error { std::string msg; };
struct Unsupported { std::string what; };
[[noreturn]] inline void err(std::string const & m) { throw Error{m}; }
[[noreturn]] inline void unsup(std::string const & m) { throw Unsupported{m}; }

// ---------------------------------------------------------------- values
enum Cls { DBL, LOG, CHR, U64, CELL, STRUCT, OBJ, FUN };
struct Val; typedef std::shared_ptr<Val> V; typedef std::vector<V> Vs;
struct Inst; struct Anon;
struct Val {
  Cls c = DBL; size_t r = 0, n = 0; bool dq = false; // dq: string scalar
  std::vector<double> d; std::vector<uint64_t> u; Vs cell; std::map<std::string, V> st; std::shared_ptr<Inst> o; std::shared_ptr<Anon> f;
  size_t num() const { return r * n; }
};
inline V mk(Cls c, size_t r, size_t n)
{ V v = std::make_shared<Val>(); v->c = c; v->r = r; v->n = n; if (c == CELL) { v->cell.resize(r * n); } else if (c == U64) v->u.resize(r * n); else if (c == DBL || c == LOG || c == CHR) v->d.resize(r * n); return v; }
inline V num(double x) { V v = mk(DBL, 1, 1); v->d[0] = x; return v; }
inline V logical(bool x) { V v = mk(LOG, 1, 1); v->d[0] = x; return v; }
inline V chr(std::string const & s, bool dq = false) { V v = mk(CHR, s.empty() && !dq ? 0 : 1, s.size()); for (size_t i = 0; i < s.size(); ++i) v->d[i] = (unsigned char)s[i]; v->dq = dq; return v; }
inline V mat(size_t r, size_t n, std::vector<double> const & d) { V v = mk(DBL, r, n); v->d = d; return v; }
inline V u64(uint64_t x) { V v = mk(U64, 1, 1); v->u[0] = x; return v; }
inline V empty() { return mk(DBL, 0, 0); }
inline bool isNum(V const & v) { return v->c == DBL || v->c == LOG || v->c == CHR; }
inline std::string text(V const & v) { if (v->c != CHR) err("text expected"); std::string s; for (double x : v->d) s += (char)x; return s; }
inline double scalar(V const & v) { if (!isNum(v) || v->num() < 1) err("numeric value expected"); return v->d[0]; }
inline bool truth(V const & v) { if (!isNum(v)) err("conversion to logical is not possible"); if (!v->num()) return false; for (double x : v->d) { if (x != x) err("NaN cannot be converted to logical"); if (x == 0) return false; } return true; }

// ---------------------------------------------------------------- syntax
struct Ex; typedef std::shared_ptr<Ex> E; typedef std::vector<E> Es;
enum T { NUM, STR, ID, ALL, END, BIN, UN, TR, PAREN, BRACE, FIELD, DYN, MATRIX, CELLLIT, RANGE, ANON, HANDLE, SUPER };
struct Ex { T t; std::string s; double x = 0; bool dq = false; Es k; std::vector<Es> rows; std::vector<std::string> ps; };
struct St; typedef std::shared_ptr<St> S; typedef std::vector<S> Ss;
enum ST { EXPR, ASSIGN, IF, FOR, WHILE, SWITCH, BREAK, CONTINUE, RETURN, COMMAND, TRY };
struct St { ST t; E e; Es lhs; std::string name; std::vector<std::pair<E, Ss>> br; Ss body, other; std::vector<std::string> words; };
struct Fn { std::string name; std::vector<std::string> in, out; Ss body; };
struct Class { std::string name; std::vector<std::string> sup; std::map<std::string, Fn> m, stat; std::map<std::string, E> prop; std::vector<std::string> porder; };
struct Anon { std::vector<std::string> ps; E body; std::map<std::string, V> env; std::string fn; };
struct Inst { std::string cls; std::map<std::string, V> p; bool dead = false, shadow = false; ~Inst(); };

struct Parser {
  std::string s; size_t p = 0; int inB = 0; std::string file;
  Parser(std::string const & t, std::string const & f) : s(t), file(f) { s += "\n"; block(); }
  void block() // removes %{ ... %} comments
  {
    std::string o; std::istringstream is(s); std::string l; int d = 0;
    while (std::getline(is, l)) { std::string t = l; while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); size_t a = t.find_first_not_of(" \t"); t = a == std::string::npos ? "" : t.substr(a);
      if (t == "%{" || t == "#{") { ++d; o += "\n"; continue; } if (d && (t == "%}" || t == "#}")) { --d; o += "\n"; continue; } o += (d ? std::string() : l) + "\n"; }
    s = o;
  }
  [[noreturn]] void bad(std::string const & w) { unsup(file + ": " + w + " near '" + s.substr(p, 30) + "'"); }
  char c(size_t k = 0) const { return p + k < s.size() ? s[p + k] : 0; }
  bool ws() // skips blanks and continuations
  {
    size_t q = p;
    while (p < s.size()) {
      if (c() == ' ' || c() == '\t' || c() == '\r') ++p;
      else if (c() == '.' && c(1) == '.' && c(2) == '.') { while (p < s.size() && c() != '\n') ++p; ++p; }
      else break;
    }
    return p > q;
  }
  void comment() { if (c() == '%') while (p < s.size() && c() != '\n') ++p; }
  void seps() { while (p < s.size()) { ws(); comment(); if (c() == '\n' || c() == ';' || c() == ',') ++p; else break; } }
  static bool idc(char x) { return isalnum((unsigned char)x) || x == '_'; }
  std::string ident() { if (!isalpha((unsigned char)c())) bad("name expected"); size_t q = p; while (idc(c())) ++p; return s.substr(q, p - q); }
  std::string peek() { ws(); comment(); if (!isalpha((unsigned char)c())) return ""; size_t q = p; while (q < s.size() && idc(s[q])) ++q; return s.substr(p, q - p); }
  bool word(char const * w) { if (peek() == w) { p += std::string(w).size(); return true; } return false; }
  bool tok(char const * t) { size_t n = std::string(t).size(); if (s.compare(p, n, t) == 0) { p += n; return true; } return false; }
  E mkE(T t) { E e = std::make_shared<Ex>(); e->t = t; return e; }
  E bin(std::string const & op, E a, E b) { E e = mkE(BIN); e->s = op; e->k = {a, b}; return e; }
  // an operator at the current position, looked at after blanks; false when the bracket context makes the blank a separator
  std::string op(std::vector<std::string> const & ops)
  {
    size_t q = p; bool sp = ws();
    for (auto const & o : ops) if (s.compare(p, o.size(), o) == 0) {
      char nx = p + o.size() < s.size() ? s[p + o.size()] : 0;
      if ((o == "&" && nx == '&') || (o == "|" && nx == '|')) continue;
      if (o == "=" ) continue;
      if (inB && sp && (o == "+" || o == "-") && nx != ' ' && nx != '\t') { p = q; return ""; }
      if (inB && sp && o == "~") { p = q; return ""; }
      p += o.size(); return o;
    }
    p = q; return "";
  }
  E expr() { return orr(); }
  template <class F> E chain(std::vector<std::string> const & ops, F sub) { E a = sub(); std::string o; while (!(o = op(ops)).empty()) { ws(); E b = sub(); a = bin(o, a, b); } return a; }
  E orr() { return chain({"||"}, [&] { return andd(); }); }
  E andd() { return chain({"&&"}, [&] { return or1(); }); }
  E or1() { return chain({"|"}, [&] { return and1(); }); }
  E and1() { return chain({"&"}, [&] { return cmp(); }); }
  E cmp() { return chain({"==", "~=", "<=", ">=", "<", ">"}, [&] { return range(); }); }
  E range()
  {
    E a = add(); size_t q = p; ws();
    if (c() == ':' ) {
      size_t z = p + 1; while (z < s.size() && (s[z] == ' ' || s[z] == '\t')) ++z;
      if (s[z] == ')' || s[z] == ',' ) { p = q; return a; }
      ++p; ws(); E b = add(); size_t q2 = p; ws(); E e = mkE(RANGE);
      if (c() == ':') { ++p; ws(); E d = add(); e->k = {a, b, d}; } else { p = q2; e->k = {a, b}; }
      return e;
    }
    p = q; return a;
  }
  E add() { return chain({"+", "-"}, [&] { return mul(); }); }
  E mul() { return chain({".*", "./", ".\\", "*", "/", "\\"}, [&] { return un(); }); }
  E un()
  {
    ws();
    if ((c() == '-' || c() == '+' || c() == '~' || c() == '!') && !(c() == '~' && c(1) == '=')) { E e = mkE(UN); e->s = std::string(1, c() == '!' ? '~' : c()); ++p; ws(); e->k = {un()}; return e; }
    return pow();
  }
  E pow()
  {
    E a = post(); std::string o;
    while (!(o = op({".^", "^"})).empty()) { ws(); E b; if (c() == '-' || c() == '+' || c() == '~') { E u = mkE(UN); u->s = std::string(1, c()); ++p; u->k = {post()}; b = u; } else b = post(); a = bin(o, a, b); }
    return a;
  }
  Es args(char close)
  {
    Es v; int sv = inB; inB = 0; ws();
    while (c() == '\n') { ++p; ws(); }
    if (c() == close) { ++p; inB = sv; return v; }
    while (true) {
      ws();
      size_t q = p;
      if (c() == ':') { ++p; ws(); if (c() == ',' || c() == close) { v.push_back(mkE(ALL)); goto next; } p = q; }
      v.push_back(expr());
      next: ws(); while (c() == '\n') { ++p; ws(); }
      if (c() == ',') { ++p; continue; }
      if (c() == '=') bad("name=value argument");
      if (c() == close) { ++p; break; }
      bad("')' expected");
    }
    inB = sv; return v;
  }
  E post()
  {
    E a = prim();
    while (true) {
      size_t q = p; bool sp = false;
      if (!inB) sp = ws();
      if (c() == '(' && !(inB && sp)) { ++p; E e = mkE(PAREN); e->k = {a}; Es b = args(')'); e->k.insert(e->k.end(), b.begin(), b.end()); a = e; continue; }
      if (c() == '{' && !sp) { ++p; E e = mkE(BRACE); e->k = {a}; Es b = args('}'); e->k.insert(e->k.end(), b.begin(), b.end()); a = e; continue; }
      if (c() == '.' && isalpha((unsigned char)c(1)) && !sp) { ++p; E e = mkE(FIELD); e->s = ident(); e->k = {a}; a = e; continue; }
      if (c() == '.' && c(1) == '(' && !sp) { p += 2; E e = mkE(DYN); e->k = {a}; Es b = args(')'); e->k.push_back(b.at(0)); a = e; continue; }
      if (c() == '.' && c(1) == '\'') { p += 2; E e = mkE(TR); e->k = {a}; a = e; continue; }
      if (c() == '\'' && !sp) { ++p; E e = mkE(TR); e->k = {a}; a = e; continue; }
      p = q; return a;
    }
  }
  E matrix(char close, T t)
  {
    E e = mkE(t); int sv = inB; inB = 1; Es row;
    while (true) {
      ws(); comment();
      if (c() == close) { ++p; break; }
      if (c() == ';' || c() == '\n') { ++p; if (!row.empty()) e->rows.push_back(row); row.clear(); continue; }
      if (c() == ',') { ++p; continue; }
      if (p >= s.size()) bad("unfinished matrix");
      row.push_back(expr());
    }
    if (!row.empty()) e->rows.push_back(row);
    inB = sv; return e;
  }
  E prim()
  {
    ws(); char x = c();
    if (isdigit((unsigned char)x) || (x == '.' && isdigit((unsigned char)c(1)))) {
      size_t q = p; while (isdigit((unsigned char)c())) ++p;
      if (c() == '.' && !(c(1) == '*' || c(1) == '/' || c(1) == '^' || c(1) == '\'' || c(1) == '\\')) { ++p; while (isdigit((unsigned char)c())) ++p; }
      if ((c() == 'e' || c() == 'E') && (isdigit((unsigned char)c(1)) || ((c(1) == '+' || c(1) == '-') && isdigit((unsigned char)c(2))))) { p += 2; while (isdigit((unsigned char)c())) ++p; }
      if (isalpha((unsigned char)c())) bad("number");
      E e = mkE(NUM); e->x = strtod(s.substr(q, p - q).c_str(), nullptr); return e;
    }
    if (x == '\'' || x == '"') {
      std::string t; ++p;
      while (true) { if (p >= s.size() || c() == '\n') bad("unfinished string"); if (c() == x) { if (c(1) == x) { t += x; p += 2; continue; } ++p; break; } t += c(); ++p; }
      E e = mkE(STR); e->s = t; e->dq = x == '"'; return e;
    }
    if (x == '(') { ++p; int sv = inB; inB = 0; E e = expr(); ws(); if (c() != ')') bad("')' expected"); ++p; inB = sv; E w = mkE(UN); w->s = "()"; w->k = {e}; return w; }
    if (x == '[') { ++p; return matrix(']', MATRIX); }
    if (x == '{') { ++p; return matrix('}', CELLLIT); }
    if (x == '@') {
      ++p; ws();
      if (c() == '(') { ++p; E e = mkE(ANON); ws(); while (c() != ')') { ws(); if (c() == '~') { e->ps.push_back("~"); ++p; } else e->ps.push_back(ident()); ws(); if (c() == ',') ++p; ws(); } ++p; int sv = inB; inB = 0; e->k = {expr()}; inB = sv; return e; }
      E e = mkE(HANDLE); e->s = ident(); while (c() == '.') { ++p; e->s += "." + ident(); } return e;
    }
    if (isalpha((unsigned char)x)) {
      std::string w = ident();
      if (w == "end") return mkE(END);
      if (c() == '@' && isalpha((unsigned char)c(1))) { ++p; E e = mkE(SUPER); e->s = w; e->ps = {ident()}; return e; }
      E e = mkE(ID); e->s = w; return e;
    }
    bad("expression expected");
  }
  static bool kw(std::string const & w)
  { for (char const * k : {"end", "else", "elseif", "case", "otherwise", "catch", "function", "methods", "properties", "classdef", "events", "enumeration"}) if (w == k) return true; return false; }
  S mkS(ST t) { S x = std::make_shared<St>(); x->t = t; return x; }
  Ss stmts() { Ss b; while (true) { seps(); if (p >= s.size()) return b; std::string w = peek(); if (kw(w)) return b; b.push_back(stmt()); } }
  void end() { seps(); if (!word("end")) bad("'end' expected"); }
  void term() { ws(); comment(); if (c() == ';' || c() == ',' || c() == '\n') { ++p; return; } if (p >= s.size()) return; bad("end of statement expected"); }
  S stmt()
  {
    std::string w = peek();
    if (w == "if") {
      word("if"); S x = mkS(IF); E e = expr(); x->br.push_back({e, stmts()});
      while (true) { seps(); if (word("elseif")) { E g = expr(); Ss b = stmts(); x->br.push_back({g, b}); } else if (word("else")) { x->other = stmts(); } else break; }
      end(); return x;
    }
    if (w == "for" || w == "parfor") { p += w.size(); S x = mkS(FOR); ws(); bool par = false; if (c() == '(') { par = true; ++p; ws(); } x->name = ident(); ws(); if (c() != '=') bad("'=' expected"); ++p; ws(); x->e = expr(); ws(); if (par && c() == ')') ++p; x->body = stmts(); end(); return x; }
    if (w == "while") { word("while"); S x = mkS(WHILE); ws(); x->e = expr(); x->body = stmts(); end(); return x; }
    if (w == "switch") {
      word("switch"); S x = mkS(SWITCH); ws(); x->e = expr(); seps();
      while (true) { seps(); if (word("case")) { ws(); E g = expr(); x->br.push_back({g, stmts()}); } else if (word("otherwise")) x->other = stmts(); else break; }
      end(); return x;
    }
    if (w == "try") { word("try"); S x = mkS(TRY); x->body = stmts(); seps(); if (word("catch")) { ws(); if (isalpha((unsigned char)c())) x->name = ident(); x->other = stmts(); } end(); return x; }
    if (w == "break") { word("break"); return mkS(BREAK); }
    if (w == "continue") { word("continue"); return mkS(CONTINUE); }
    if (w == "return") { word("return"); return mkS(RETURN); }
    if (w == "global" || w == "persistent" || w == "import" || w == "spmd" || w == "unwind_protect") bad("statement");
    // command syntax: name word ... (the first word starts right after a blank and is not an operator followed by a blank)
    if (!w.empty()) {
      size_t q = p; p += w.size();
      if (c() == ' ' || c() == '\t') { size_t z = p; while (s[z] == ' ' || s[z] == '\t') ++z; char a = s[z]; char b = z + 1 < s.size() ? s[z + 1] : 0; (void)b;
        if (isalpha((unsigned char)a)) { std::string l; while (z < s.size() && s[z] != '\n' && s[z] != ';' && s[z] != '%' && s[z] != ',') l += s[z++]; p = z; S x = mkS(COMMAND); x->name = w; std::istringstream is(l); std::string t; while (is >> t) x->words.push_back(t); term(); return x; } }
      p = q;
    }
    // assignment or expression
    size_t q = p; ws();
    if (c() == '[') { // [a, b] = ...
      size_t z = p; int d = 0; for (; z < s.size() && s[z] != '\n'; ++z) { if (s[z] == '[' || s[z] == '(' || s[z] == '{') ++d; else if (s[z] == ']' || s[z] == ')' || s[z] == '}') { if (!--d) break; } }
      size_t y = z + 1; while (y < s.size() && (s[y] == ' ' || s[y] == '\t')) ++y;
      if (s[z] == ']' && s[y] == '=' && s[y + 1] != '=') {
        ++p; S x = mkS(ASSIGN);
        while (true) { ws(); if (c() == ']') { ++p; break; } if (c() == ',') { ++p; continue; } if (c() == '~') { ++p; x->lhs.push_back(nullptr); continue; } int sv = inB; inB = 1; x->lhs.push_back(post()); inB = sv; }
        ws(); ++p; ws(); x->e = expr(); term(); return x;
      }
      p = q;
    }
    E e = expr(); ws();
    if (c() == '=' && c(1) != '=') { ++p; ws(); S x = mkS(ASSIGN); x->lhs = {e}; x->e = expr(); term(); return x; }
    if ((c() == '+' || c() == '-' || c() == '*' || c() == '/') && c(1) == '=') bad("operator");
    S x = mkS(EXPR); x->e = e; term(); return x;
  }
  Fn func()
  {
    Fn f; ws();
    if (c() == '[') { ++p; while (true) { ws(); if (c() == ']') { ++p; break; } if (c() == ',') { ++p; continue; } f.out.push_back(ident()); } ws(); if (c() != '=') bad("'=' expected"); ++p; ws(); f.name = ident(); }
    else { f.name = ident(); ws(); if (c() == '=') { ++p; ws(); f.out = {f.name}; f.name = ident(); } }
    while (c() == '.') { ++p; f.name += "." + ident(); }
    if (f.name.compare(0, 4, "get.") == 0 || f.name.compare(0, 4, "set.") == 0) bad("property access method");
    ws();
    if (c() == '(') { ++p; while (true) { ws(); if (c() == ')') { ++p; break; } if (c() == ',') { ++p; continue; } if (c() == '~') { ++p; f.in.push_back("~"); continue; } f.in.push_back(ident()); } }
    seps(); if (peek() == "arguments") { size_t q = p; word("arguments"); ws(); if (c() == '\n' || c() == '(') bad("arguments block"); p = q; }
    f.body = stmts(); seps();
    if (peek() == "end") word("end"); else if (p < s.size() && peek() != "function") bad("end of function expected");
    return f;
  }
  void attrs(std::string & a) { ws(); if (c() == '(') { int d = 0; while (p < s.size()) { if (c() == '(') ++d; if (c() == ')') --d; a += c(); ++p; if (!d) break; } } }
  Class klass()
  {
    Class k; std::string a; attrs(a); ws(); k.name = ident(); ws();
    if (c() == '<') { ++p; while (true) { ws(); k.sup.push_back(ident()); ws(); if (c() == '&') { ++p; continue; } break; } }
    while (true) {
      seps();
      if (word("properties")) {
        std::string at; attrs(at);
        while (true) {
          seps(); if (word("end")) break; if (p >= s.size()) bad("unfinished properties");
          std::string n = ident(); E d; ws();
          if (c() == '=') { ++p; ws(); d = expr(); } else if (c() != ';' && c() != '\n' && c() != ',' && c() != '%') { // size, class or validators
            while (p < s.size() && c() != '=' && c() != ';' && c() != '\n' && c() != '%') ++p; if (c() == '=') { ++p; ws(); d = expr(); } }
          k.prop[n] = d; k.porder.push_back(n);
        }
      } else if (word("methods")) {
        std::string at; attrs(at); if (at.find("Abstract") != std::string::npos) bad("abstract methods"); bool st = at.find("Static") != std::string::npos && at.find("Static = false") == std::string::npos && at.find("Static=false") == std::string::npos;
        while (true) { seps(); if (word("end")) break; if (!word("function")) bad("function expected"); Fn f = func(); (st ? k.stat : k.m)[f.name] = f; }
      } else if (word("end")) break;
      else bad("class section");
    }
    return k;
  }
};
// ---------------------------------------------------------------- interpreter
struct Draw { std::string name; Vs a; };
struct Interp {
  std::map<std::string, Class> classes; std::map<std::string, Fn> fns; std::map<std::string, std::function<Vs(int, Vs const &)>> native;
  std::vector<Draw> drawn; std::string shown; int depth = 0; long long steps = 0;
  struct Frame { std::map<std::string, V> v; Fn const * fn = nullptr; int nin = 0, nout = 0; std::vector<std::pair<V, std::pair<int, int>>> ends; };
  enum Flow { NEXT, BRK, CONT, RET };

  void load(std::string const & txt, std::string const & file)
  {
    Parser ps(txt, file); ps.seps();
    if (ps.word("classdef")) { Class k = ps.klass(); classes[k.name] = k; ps.seps(); }
    while (ps.word("function")) { Fn f = ps.func(); fns[f.name] = f; ps.seps(); }
    if (ps.p < ps.s.size()) ps.bad("end of file expected");
  }
  bool isA(std::string const & c, std::string const & of) { if (c == of || of == "handle") return true; auto it = classes.find(c); if (it == classes.end()) return false; for (auto const & s : it->second.sup) if (s == of || isA2(s, of)) return true; return false; }
  bool isA2(std::string const & c, std::string const & of) { return classes.count(c) ? isA(c, of) : c == of; }
  Fn const * method(std::string const & c, std::string const & m, bool st = false)
  {
    auto it = classes.find(c); if (it == classes.end()) return nullptr;
    auto & t = st ? it->second.stat : it->second.m; auto f = t.find(m); if (f != t.end()) return &f->second;
    for (auto const & s : it->second.sup) if (Fn const * g = method(s, m, st)) return g;
    return nullptr;
  }
  void props(std::string const & c, Inst & i)
  { auto it = classes.find(c); if (it == classes.end()) return; for (auto const & s : it->second.sup) props(s, i); for (auto const & p : it->second.prop) { Frame f; i.p[p.first] = p.second ? eval(p.second, f) : empty(); } }
  V object(std::shared_ptr<Inst> const & i) { V v = std::make_shared<Val>(); v->c = OBJ; v->r = v->n = 1; v->o = i; return v; }
  // ------------------------------------------------ calls
  struct Deep { Interp & i; Deep(Interp & x) : i(x) { if (++i.depth > 400) { --i.depth; err("recursion limit"); } } ~Deep() { --i.depth; } };
  static bool unsetParameter(std::string const & n, Frame const & f) { return f.fn && std::find(f.fn->in.begin(), f.fn->in.end(), n) != f.fn->in.end(); }
  Vs run(Fn const & f, Vs const & a, int nout, V self = nullptr)
  {
    Deep d(*this); Frame fr; fr.fn = &f; fr.nin = (int)a.size(); fr.nout = nout;
    bool var = !f.in.empty() && f.in.back() == "varargin"; size_t np = f.in.size() - var;
    if (a.size() > np && !var) err("Too many input arguments (" + f.name + ").");
    for (size_t i = 0; i < np && i < a.size(); ++i) if (f.in[i] != "~") fr.v[f.in[i]] = a[i];
    if (var) { size_t n = a.size() > np ? a.size() - np : 0; V c = mk(CELL, n ? 1 : 0, n); for (size_t i = 0; i < n; ++i) c->cell[i] = a[np + i]; fr.v["varargin"] = c; }
    if (self) fr.v[f.out.at(0)] = self;
    exec(f.body, fr);
    Vs out; bool vo = !f.out.empty() && f.out.back() == "varargout"; size_t no = f.out.size() - vo;
    for (size_t i = 0; i < no && (int)i < std::max(nout, 1); ++i) { auto it = fr.v.find(f.out[i]); if (it == fr.v.end()) { if ((int)i < nout) err("Output argument '" + f.out[i] + "' is not assigned in " + f.name + "."); break; } out.push_back(it->second); }
    if (vo && (int)out.size() < std::max(nout, 1) && fr.v.count("varargout")) for (V const & v : fr.v["varargout"]->cell) if ((int)out.size() < std::max(nout, 1)) out.push_back(v);
    if ((int)out.size() < nout) err("Too many output arguments (" + f.name + ").");
    return out;
  }
  V construct(std::string const & c, Vs const & a)
  {
    auto i = std::make_shared<Inst>(); i->cls = c; props(c, *i); V self = object(i);
    auto & k = classes[c]; auto it = k.m.find(c);
    if (it != k.m.end()) { try { Vs o = run(it->second, a, 1, self); self = o.at(0); } catch (...) { /* MATLAB destroys the unfinished object, too */ throw; } }
    else for (auto const & s : k.sup) { auto sc = classes.find(s); if (sc != classes.end() && sc->second.m.count(s)) run(sc->second.m[s], a, 1, self); }
    return self;
  }
  // every destructor of the class chain
  void destroy(std::string const & c, V const & self)
  {
    auto it = classes.find(c); if (it == classes.end()) return;
    auto m = it->second.m.find("delete"); if (m != it->second.m.end()) { Vs none; run(m->second, {self}, 0); }
    for (auto const & s : it->second.sup) destroy(s, self);
  }
  std::vector<std::string> dtorErrors;
  Vs callMethod(V const & o, std::string const & m, Vs const & rest, int nout)
  {
    if (o->o->dead) err("Invalid or deleted object.");
    Vs a = {o}; a.insert(a.end(), rest.begin(), rest.end());
    if (m == "delete") { destroy(o->o->cls, o); o->o->dead = true; return {}; }
    if (m == "isvalid") return {logical(true)};
    Fn const * f = method(o->o->cls, m);
    if (!f) err("Unrecognized method, property, or field '" + m + "' for class '" + o->o->cls + "'.");
    return run(*f, a, nout);
  }
  Vs call(std::string const & f, Vs const & a, int nout)
  {
    for (V const & v : a) if (v->c == OBJ && (method(v->o->cls, f) || (f == "delete"))) { // dispatch on the object
      Fn const * m = method(v->o->cls, f);
      if (f == "delete") return callMethod(v, f, {}, nout);
      if (f == "isvalid") break;
      if (v->o->dead) err("Invalid or deleted object.");
      return run(*m, a, nout);
    }
    if (classes.count(f)) return {construct(f, a)};
    auto n = native.find(f); if (n != native.end()) return n->second(nout, a);
    auto u = fns.find(f); if (u != fns.end()) return run(u->second, a, nout);
    return builtin(f, a, nout);
  }
  Vs apply(V const & f, Vs const & a, int nout)
  {
    if (f->c == CHR) return call(text(f), a, nout);
    if (f->c != FUN) err("function expected");
    if (!f->f->fn.empty()) return call(f->f->fn, a, nout);
    Deep d(*this); Frame fr; fr.v = f->f->env; fr.nin = (int)a.size(); auto const & ps = f->f->ps; bool var = !ps.empty() && ps.back() == "varargin";
    if (a.size() > ps.size() && !var) err("Too many input arguments.");
    for (size_t i = 0; i < ps.size() - var && i < a.size(); ++i) if (ps[i] != "~") fr.v[ps[i]] = a[i];
    if (var) { size_t np = ps.size() - 1, k = a.size() > np ? a.size() - np : 0; V c = mk(CELL, k ? 1 : 0, k); for (size_t i = 0; i < k; ++i) c->cell[i] = a[np + i]; fr.v["varargin"] = c; }
    return evalN(f->f->body, fr, nout);
  }
  // ------------------------------------------------ statements
  Flow exec(Ss const & b, Frame & f) { for (S const & s : b) { Flow x = exec(*s, f); if (x != NEXT) return x; } return NEXT; }
  Flow exec(St const & s, Frame & f)
  {
    if (++steps > 200000000LL) unsup("too many steps");
    switch (s.t) {
      case EXPR: { Vs v = evalN(s.e, f, 0); (void)v; return NEXT; }
      case ASSIGN: {
        if (s.lhs.size() == 1) { if (!s.lhs[0]) { eval(s.e, f); return NEXT; } V v; if (s.e->t == MATRIX && s.e->rows.empty() && s.lhs[0]->t == PAREN) unsup("deletion"); v = eval(s.e, f); assign(s.lhs[0], v, f); return NEXT; }
        Vs v = evalN(s.e, f, (int)s.lhs.size()); if (v.size() < s.lhs.size()) err("Too many output arguments.");
        for (size_t i = 0; i < s.lhs.size(); ++i) if (s.lhs[i]) assign(s.lhs[i], v[i], f);
        return NEXT;
      }
      case IF: for (auto const & br : s.br) if (truth(eval(br.first, f))) return exec(br.second, f); return exec(s.other, f);
      case FOR: {
        V v = eval(s.e, f);
        for (size_t i = 0; i < v->n; ++i) { V x; if (v->r == 1) x = index(v, {num((double)i + 1)}); else x = index(v, {chr(":"), num((double)i + 1)}); if (v->r == 0) break; f.v[s.name] = x; Flow w = exec(s.body, f); if (w == BRK) break; if (w == RET) return RET; }
        return NEXT;
      }
      case WHILE: while (truth(eval(s.e, f))) { Flow w = exec(s.body, f); if (w == BRK) break; if (w == RET) return RET; if (++steps > 200000000LL) unsup("too many steps"); } return NEXT;
      case SWITCH: {
        V v = eval(s.e, f);
        auto eq = [&](V const & a) { if (v->c == CHR || a->c == CHR) return v->c == CHR && a->c == CHR && text(v) == text(a); return a->num() && v->num() && scalar(a) == scalar(v); };
        for (auto const & br : s.br) { V g = eval(br.first, f); bool hit = false; if (g->c == CELL) { for (V const & x : g->cell) hit = hit || eq(x); } else hit = eq(g); if (hit) return exec(br.second, f); }
        return exec(s.other, f);
      }
      case BREAK: return BRK; case CONTINUE: return CONT; case RETURN: return RET;
      case COMMAND: { Vs a; for (auto const & w : s.words) a.push_back(chr(w)); if (f.v.count(s.name)) unsup("command syntax on a variable"); call(s.name, a, 0); return NEXT; }
      case TRY: try { return exec(s.body, f); } catch (Error const & e) { if (!s.name.empty()) { V v = std::make_shared<Val>(); v->c = STRUCT; v->r = v->n = 1; v->st["message"] = chr(e.msg); v->st["identifier"] = chr(""); f.v[s.name] = v; } return exec(s.other, f); }
    }
    return NEXT;
  }
  // ------------------------------------------------ expressions
  V eval(E const & e, Frame & f) { Vs v = evalN(e, f, 1); if (v.empty()) err("a value is missing (the call has no output)"); return v[0]; }
  Vs list(Es const & k, size_t from, Frame & f, V const & base)
  {
    Vs a; size_t n = k.size() - from;
    for (size_t i = from; i < k.size(); ++i) {
      if (k[i]->t == ALL) { a.push_back(chr(":")); continue; }
      if (base) f.ends.push_back({base, {(int)(i - from), (int)n}});
      Vs v;
      try { v = evalN(k[i], f, 1); } catch (...) { if (base) f.ends.pop_back(); throw; }
      if (base) f.ends.pop_back();
      if (k[i]->t != BRACE && v.empty()) err("a value is missing (the call has no output)");
      a.insert(a.end(), v.begin(), v.end());
    }
    return a;
  }
  Vs evalN(E const & e, Frame & f, int nout)
  {
    if (++steps > 200000000LL) unsup("too many steps");
    switch (e->t) {
      case NUM: return {num(e->x)};
      case STR: return {chr(e->s, e->dq)};
      case ALL: return {chr(":")};
      case END: {
        if (f.ends.empty()) err("'end' outside an index"); auto const & t = f.ends.back(); V const & b = t.first; int k = t.second.first, n = t.second.second;
        if (b->c == OBJ) err("'end' on an object");
        return {num(n == 1 ? (double)b->num() : k == 0 ? (double)b->r : k == 1 ? (double)b->n : 1.0)};
      }
      case ID: {
        auto it = f.v.find(e->s); if (it != f.v.end()) return {it->second};
        if (e->s == "nargin") return {num(f.nin)}; if (e->s == "nargout") return {num(f.nout)};
        if (unsetParameter(e->s, f)) err("Not enough input arguments (" + e->s + ").");
        return call(e->s, {}, nout);
      }
      case UN: {
        if (e->s == "()") return {eval(e->k[0], f)};
        V a = eval(e->k[0], f); if (!isNum(a)) { if (a->c == OBJ || a->c == CELL) err("operator on a wrong type"); unsup("unary operator"); }
        V r = mk(e->s == "~" ? LOG : DBL, a->r, a->n); for (size_t i = 0; i < a->num(); ++i) { if (e->s == "~" && a->d[i] != a->d[i]) err("NaN to logical"); r->d[i] = e->s == "-" ? -a->d[i] : e->s == "+" ? a->d[i] : a->d[i] == 0; } return {r};
      }
      case TR: {
        V a = eval(e->k[0], f); if (a->c == OBJ || a->c == STRUCT) return {a}; V r = mk(a->c, a->n, a->r); r->dq = a->dq; if (a->dq) return {a};
        for (size_t i = 0; i < a->r; ++i) for (size_t j = 0; j < a->n; ++j) { size_t x = i + j * a->r, y = j + i * a->n; if (a->c == CELL) r->cell[y] = a->cell[x]; else if (a->c == U64) r->u[y] = a->u[x]; else r->d[y] = a->d[x]; } return {r};
      }
      case BIN: return {binary(e, f)};
      case RANGE: {
        double a = scalar(eval(e->k[0], f)), st = e->k.size() == 3 ? scalar(eval(e->k[1], f)) : 1, b = scalar(eval(e->k.back(), f));
        if (!(st != 0) || (st > 0 && a > b) || (st < 0 && a < b) || a != a || b != b) return {mk(DBL, 1, 0)};
        size_t n = (size_t)std::floor((b - a) / st * (1 + 4e-16) + 1e-10) + 1; if (n > 10000000) unsup("long range"); V r = mk(DBL, 1, n); for (size_t i = 0; i < n; ++i) r->d[i] = a + (double)i * st;
        if (std::abs(r->d[n - 1] - b) < std::abs(st) * 1e-9) r->d[n - 1] = b;
        return {r};
      }
      case MATRIX: {
        Vs rows; for (auto const & r : e->rows) { Vs a; for (auto const & x : r) { Vs v = evalN(x, f, 1); a.insert(a.end(), v.begin(), v.end()); } rows.push_back(cat(a, 2)); }
        return {cat(rows, 1)};
      }
      case CELLLIT: {
        if (e->rows.empty()) return {mk(CELL, 0, 0)};
        std::vector<Vs> rows; for (auto const & r : e->rows) { Vs a; for (auto const & x : r) { Vs v = evalN(x, f, 1); a.insert(a.end(), v.begin(), v.end()); } rows.push_back(a); }
        V c = mk(CELL, rows.size(), rows[0].size()); for (size_t i = 0; i < rows.size(); ++i) { if (rows[i].size() != rows[0].size()) err("cell rows of different lengths"); for (size_t j = 0; j < rows[i].size(); ++j) c->cell[i + j * rows.size()] = rows[i][j]; } return {c};
      }
      case ANON: { V v = std::make_shared<Val>(); v->c = FUN; v->r = v->n = 1; v->f = std::make_shared<Anon>(); v->f->ps = e->ps; v->f->body = e->k[0]; v->f->env = f.v; return {v}; }
      case HANDLE: { V v = std::make_shared<Val>(); v->c = FUN; v->r = v->n = 1; v->f = std::make_shared<Anon>(); v->f->fn = e->s; return {v}; }
      case SUPER: return super(e, {}, f, nout);
      case FIELD: return field(e->k[0], e->s, nullptr, f, nout);
      case DYN: return field(e->k[0], text(eval(e->k[1], f)), nullptr, f, nout);
      case BRACE: {
        V b = eval(e->k[0], f); if (b->c != CELL) err("brace indexing on a value which is not a cell");
        V r = index(b, list(e->k, 1, f, b)); return r->cell;
      }
      case PAREN: {
        E b = e->k[0];
        if (b->t == SUPER) return super(b, list(e->k, 1, f, nullptr), f, nout);
        if (b->t == FIELD || b->t == DYN) return field(b->k[0], b->t == FIELD ? b->s : text(eval(b->k[1], f)), e.get(), f, nout);
        if (b->t == ID) {
          auto it = f.v.find(b->s);
          if (it == f.v.end()) { if (unsetParameter(b->s, f)) err("Not enough input arguments (" + b->s + ")."); return call(b->s, list(e->k, 1, f, nullptr), nout); }
          V v = it->second; if (v->c == FUN) return apply(v, list(e->k, 1, f, nullptr), nout);
          return {index(v, list(e->k, 1, f, v))};
        }
        V v = eval(b, f); if (v->c == FUN) return apply(v, list(e->k, 1, f, nullptr), nout);
        return {index(v, list(e->k, 1, f, v))};
      }
    }
    return {};
  }
  Vs super(E const & e, Vs const & a, Frame & f, int nout)
  {
    auto it = f.v.find(e->s);
    if (it != f.v.end() && it->second->c == OBJ) { // this@Super(...)
      auto c = classes.find(e->ps[0]); if (c == classes.end()) { if (e->ps[0] == "handle") return {it->second}; unsup("superclass " + e->ps[0]); }
      auto m = c->second.m.find(e->ps[0]); if (m != c->second.m.end()) run(m->second, a, 1, it->second); return {it->second};
    }
    Fn const * m = method(e->ps[0], e->s); if (!m) unsup("superclass method " + e->s); return run(*m, a, nout);
  }
  Vs field(E const & base, std::string const & n, Ex const * par, Frame & f, int nout)
  {
    if (base->t == ID && !f.v.count(base->s) && classes.count(base->s)) { Fn const * m = method(base->s, n, true); if (!m) err("no static method " + n); return run(*m, par ? list(par->k, 1, f, nullptr) : Vs(), nout); }
    V b = eval(base, f);
    if (b->c == OBJ) {
      if (b->o->dead) err("Invalid or deleted object.");
      auto it = b->o->p.find(n);
      if (it != b->o->p.end()) { if (!par) return {it->second}; return {index(it->second, list(par->k, 1, f, it->second))}; }
      if (Fn const * m = method(b->o->cls, n, true)) return run(*m, par ? list(par->k, 1, f, nullptr) : Vs(), nout);
      return callMethod(b, n, par ? list(par->k, 1, f, nullptr) : Vs(), nout);
    }
    if (b->c == STRUCT) { auto it = b->st.find(n); if (it == b->st.end()) err("no field " + n); if (!par) return {it->second}; if (it->second->c == FUN) return apply(it->second, list(par->k, 1, f, nullptr), nout); return {index(it->second, list(par->k, 1, f, it->second))}; }
    err("dot indexing is not supported for this value");
  }
  static bool isAll(V const & v) { return v->c == CHR && v->num() == 1 && v->d[0] == ':'; }
  std::vector<size_t> subs(V const & i, size_t n, bool grow)
  {
    std::vector<size_t> r;
    if (isAll(i)) { for (size_t k = 0; k < n; ++k) r.push_back(k); return r; }
    if (i->c == LOG) { for (size_t k = 0; k < i->num(); ++k) if (i->d[k]) { if (k >= n && !grow) err("logical index beyond the end"); r.push_back(k); } return r; }
    if (i->c == OBJ || i->c == CELL || i->c == STRUCT) err("wrong index type");
    if (i->c == U64) { for (uint64_t x : i->u) { if (x < 1 || (x > n && !grow)) err("index out of bounds"); r.push_back(x - 1); } return r; }
    for (double x : i->d) { if (!(x >= 1) || x != std::floor(x)) err("indices must be positive integers"); if (x > (double)n && !grow) err("index exceeds the number of array elements"); r.push_back((size_t)x - 1); }
    return r;
  }
  static void put(V const & r, size_t k, V const & a, size_t j) { if (a->c == CELL) r->cell[k] = a->cell[j]; else if (a->c == U64) r->u[k] = a->u[j]; else r->d[k] = a->d[j]; }
  V index(V const & a, Vs const & ix)
  {
    if (ix.empty()) return a;
    if (a->c == OBJ || a->c == STRUCT || a->c == FUN) { for (V const & i : ix) { auto s = subs(i, 1, false); if (s.size() != 1) unsup("array of objects"); } return a; }
    if (a->dq) { for (V const & i : ix) { auto s = subs(i, 1, false); if (s.size() != 1) unsup("string array"); } return a; }
    if (ix.size() == 1) {
      auto s = subs(ix[0], a->num(), false); size_t r, n;
      if (isAll(ix[0])) { r = s.size(); n = 1; }
      else if (ix[0]->c == LOG ? (a->r == 1) : (ix[0]->r == 1 && ix[0]->n == 1)) { r = 1; n = s.size(); if (ix[0]->c == LOG && a->r != 1) { r = s.size(); n = 1; } }
      else if (ix[0]->c == LOG) { r = s.size(); n = 1; }
      else if ((a->r == 1 || a->n == 1) && (ix[0]->r == 1 || ix[0]->n == 1)) { if (a->r == 1 && a->n != 1) { r = 1; n = s.size(); } else if (a->n == 1 && a->r != 1) { r = s.size(); n = 1; } else { r = ix[0]->r; n = ix[0]->n; } }
      else { r = ix[0]->r; n = ix[0]->n; }
      V v = mk(a->c, r, n); for (size_t k = 0; k < s.size(); ++k) put(v, k, a, s[k]); return v;
    }
    for (size_t k = 2; k < ix.size(); ++k) { auto s = subs(ix[k], 1, false); if (s.size() != 1) unsup("many dimensions"); }
    auto si = subs(ix[0], a->r, false), sj = subs(ix[1], a->n, false);
    V v = mk(a->c, si.size(), sj.size()); for (size_t j = 0; j < sj.size(); ++j) for (size_t i = 0; i < si.size(); ++i) put(v, i + j * si.size(), a, si[i] + sj[j] * a->r);
    return v;
  }
  static V convert(V const & a, Cls c) { if (a->c == c) return a; if (!isNum(a) || (c != DBL && c != LOG && c != CHR)) err("conversion between these types is not possible"); V v = mk(c, a->r, a->n); v->d = a->d; return v; }
  V assignIndex(V a, Vs const & ix, V rhs, bool brace)
  {
    if (!a) a = brace || rhs->c == CELL ? mk(CELL, 0, 0) : rhs->c == OBJ || rhs->c == STRUCT ? nullptr : mk(rhs->c, 0, 0);
    if (!a) return rhs;
    if (a->c == OBJ || a->c == STRUCT) { for (V const & i : ix) if (!isAll(i) && scalar(i) != 1) unsup("array of objects"); return rhs; }
    if (a->num() == 0 && a->c == DBL && rhs->c == CELL && !brace) a = mk(CELL, a->r, a->n);
    if (brace && a->c != CELL) { if (a->num() == 0) a = mk(CELL, a->r, a->n); else err("brace assignment to a value which is not a cell"); }
    if (a->c == CELL && !brace && rhs->c != CELL) { V w = mk(CELL, 1, 1); w->cell[0] = rhs; rhs = w; }
    if (brace) { V w = mk(CELL, 1, 1); w->cell[0] = rhs; rhs = w; }
    if (rhs->c == OBJ || rhs->c == STRUCT || rhs->c == FUN) { if (a->num() == 0) { for (V const & i : ix) if (!isAll(i) && scalar(i) != 1) unsup("array of objects"); return rhs; } unsup("array of objects"); }
    Cls c = a->c; if (a->c != rhs->c) { if (a->c == U64 || rhs->c == U64) unsup("mixed integer classes"); c = a->num() == 0 && a->c == DBL ? rhs->c : (a->c == DBL || rhs->c == DBL) ? DBL : (a->c == CHR || rhs->c == CHR) ? CHR : DBL; if (c != a->c) a = convert(a, c); if (c != rhs->c) rhs = convert(rhs, c); }
    size_t r = a->r, n = a->n; std::vector<size_t> si, sj;
    auto fillv = [&](V const & v) { if (c == CELL) for (V & x : v->cell) if (!x) x = empty(); };
    auto grow = [&](size_t R, size_t N) { V v = mk(c, R, N); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < r; ++i) put(v, i + j * R, a, i + j * r); fillv(v); return v; };
    if (ix.size() == 1) {
      size_t tot = r * n; si = subs(ix[0], tot, true); size_t mx = 0; for (size_t k : si) mx = std::max(mx, k + 1);
      V v; if (mx > tot) { if (tot == 0) v = grow(1, mx); else if (r == 1) v = grow(1, mx); else if (n == 1) v = grow(mx, 1); else err("linear assignment beyond the end of a matrix"); } else v = grow(r, n);
      if (rhs->num() != 1 && rhs->num() != si.size()) err("left and right sides have a different number of elements");
      for (size_t k = 0; k < si.size(); ++k) put(v, si[k], rhs, rhs->num() == 1 ? 0 : k); return v;
    }
    if (ix.size() != 2) unsup("many dimensions");
    if (isAll(ix[0]) && r == 0) { for (size_t k = 0; k < (isAll(ix[1]) || rhs->num() != 1 ? rhs->r : 1); ++k) si.push_back(k); if (rhs->r == 1 && !isAll(ix[1]) && rhs->n > 1) { si.clear(); for (size_t k = 0; k < rhs->n; ++k) si.push_back(k); } } else si = subs(ix[0], r, true);
    if (isAll(ix[1]) && n == 0) { for (size_t k = 0; k < rhs->num() / std::max<size_t>(1, si.size()); ++k) sj.push_back(k); } else sj = subs(ix[1], n, true);
    size_t R = r, N = n; for (size_t k : si) R = std::max(R, k + 1); for (size_t k : sj) N = std::max(N, k + 1);
    if (rhs->num() != 1 && rhs->num() != si.size() * sj.size()) err("left and right sides have different sizes");
    if (rhs->num() != 1 && !((rhs->r == si.size() && rhs->n == sj.size()) || si.size() == 1 || sj.size() == 1)) err("left and right sides have different sizes");
    V v = grow(R, N); size_t q = 0; for (size_t j = 0; j < sj.size(); ++j) for (size_t i = 0; i < si.size(); ++i, ++q) put(v, si[i] + sj[j] * R, rhs, rhs->num() == 1 ? 0 : q);
    return v;
  }
  // functional update along an access chain
  V update(V base, std::vector<E> const & path, size_t k, V const & rhs, Frame & f)
  {
    if (k == path.size()) return rhs;
    E const & e = path[k];
    if (e->t == FIELD || e->t == DYN) {
      std::string n = e->t == FIELD ? e->s : text(eval(e->k[1], f));
      if (base && base->c == OBJ) {
        if (base->o->dead) err("Invalid or deleted object.");
        auto it = base->o->p.find(n); if (it == base->o->p.end()) err("Unrecognized property '" + n + "' for class '" + base->o->cls + "'.");
        it->second = update(it->second, path, k + 1, rhs, f); return base;
      }
      if (base && base->c != STRUCT && base->num()) err("field assignment to a value which is not a structure");
      V v = std::make_shared<Val>(); v->c = STRUCT; v->r = v->n = 1; if (base && base->c == STRUCT) v->st = base->st;
      auto it = v->st.find(n); v->st[n] = update(it == v->st.end() ? nullptr : it->second, path, k + 1, rhs, f); return v;
    }
    V b0 = base ? base : empty(); Vs ix = list(e->k, 1, f, b0);
    if (k + 1 == path.size()) return assignIndex(base, ix, rhs, e->t == BRACE);
    V cur; try { cur = index(b0, ix); if (e->t == BRACE && cur->c == CELL && cur->num() == 1) cur = cur->cell[0]; } catch (Error const &) { cur = nullptr; }
    V nv = update(cur, path, k + 1, rhs, f);
    if (cur && cur->c == OBJ && nv == cur) return base;
    return assignIndex(base, ix, nv, e->t == BRACE);
  }
  void assign(E const & lhs, V const & rhs, Frame & f)
  {
    std::vector<E> path; E e = lhs; while (e->t != ID) { if (e->t != PAREN && e->t != BRACE && e->t != FIELD && e->t != DYN) unsup("assignment target"); path.push_back(e); e = e->k[0]; }
    std::reverse(path.begin(), path.end()); auto it = f.v.find(e->s); V base = it == f.v.end() ? nullptr : it->second;
    V v = update(base, path, 0, rhs, f); f.v[e->s] = v;
  }
  static V cat(Vs const & a0, int dim)
  {
    Vs a; bool cell = false, ch = false, lg = true, u = false, dq = false; for (V const & v : a0) { if (v->c == OBJ || v->c == STRUCT || v->c == FUN) { if (a0.size() == 1) return v; unsup("array of objects"); } cell = cell || v->c == CELL; ch = ch || v->c == CHR; lg = lg && v->c == LOG; u = u || v->c == U64; dq = dq || v->dq; if (!(v->r == 0 && v->n == 0) || v->dq) a.push_back(v); }
    if (a0.size() == 1) return a0[0];
    if (dq) unsup("string array"); if (u) unsup("concatenation of integers");
    Cls c = cell ? CELL : ch ? CHR : !a0.empty() && lg ? LOG : DBL; if (a.empty()) return mk(c, 0, 0);
    if (cell) for (V & v : a) if (v->c != CELL) { V w = mk(CELL, 1, 1); w->cell[0] = v; v = w; }
    size_t r = 0, n = 0; for (V const & v : a) { if (dim == 2) { if (n && v->r != r) { if (v->num() == 0) continue; err("Dimensions of arrays being concatenated are not consistent."); } r = v->r; n += v->n; } else { if (r && v->n != n) err("Dimensions of arrays being concatenated are not consistent."); n = v->n; r += v->r; } }
    V o = mk(c, r, n); size_t at = 0;
    for (V const & v : a) { if (dim == 2 && v->num() == 0 && v->r != r) continue; for (size_t j = 0; j < v->n; ++j) for (size_t i = 0; i < v->r; ++i) put(o, dim == 2 ? i + (at + j) * r : at + i + j * r, v, i + j * v->r); at += dim == 2 ? v->n : v->r; }
    return o;
  }
  V binary(E const & e, Frame & f)
  {
    std::string const & o = e->s;
    if (o == "&&" || o == "||") { V a = eval(e->k[0], f); if (isNum(a) && a->num() != 1) { if (a->num() == 0) return logical(o == "||" ? truth(eval(e->k[1], f)) : false); err("operands of && and || must be convertible to logical scalar values"); } bool t = truth(a); if (o == "&&" ? !t : t) return logical(t); V b = eval(e->k[1], f); if (isNum(b) && b->num() != 1) err("operands of && and || must be convertible to logical scalar values"); return logical(truth(b)); }
    V a = eval(e->k[0], f), b = eval(e->k[1], f);
    return binary(o, a, b);
  }
  V binary(std::string const & o, V const & a, V const & b)
  {
    bool cmp = o == "==" || o == "~=" || o == "<" || o == ">" || o == "<=" || o == ">=" || o == "&" || o == "|";
    if (a->c == OBJ && b->c == OBJ && (o == "==" || o == "~=")) return logical((a->o == b->o) == (o == "=="));
    if (a->dq || b->dq) {
      if (o == "==" || o == "~=") { if (a->c != CHR || b->c != CHR) { if (isNum(a) && isNum(b)) unsup("string compared with a number"); err("comparison of a string with this type is not possible"); } return logical((text(a) == text(b)) == (o == "==")); }
      if (o == "+") { auto t = [&](V const & v) { if (v->c == CHR) return text(v); if (isNum(v) && v->num() == 1) return fmtNum(v->d[0]); unsup("string addition"); }; return chr(t(a) + t(b), true); }
      unsup("operator on a string");
    }
    if (a->c == U64 && b->c == U64 && (o == "==" || o == "~=") && a->num() == 1 && b->num() == 1) return logical((a->u[0] == b->u[0]) == (o == "=="));
    if (!isNum(a) || !isNum(b)) { if (a->c == U64 || b->c == U64) unsup("integer arithmetic"); err("operator '" + o + "' is not defined for these types"); }
    if (o == "*" && a->num() != 1 && b->num() != 1) {
      if (a->n != b->r) err("Incorrect dimensions for matrix multiplication."); V r = mk(DBL, a->r, b->n);
      for (size_t i = 0; i < a->r; ++i) for (size_t j = 0; j < b->n; ++j) { double s = 0; for (size_t k = 0; k < a->n; ++k) s += a->d[i + k * a->r] * b->d[k + j * b->r]; r->d[i + j * a->r] = s; } return r;
    }
    if ((o == "/" && b->num() != 1) || (o == "\\" && a->num() != 1) || (o == "^" && (a->num() != 1 || b->num() != 1))) unsup("matrix operator " + o);
    auto op = [&](double x, double y) -> double {
      if (o == "+") return x + y; if (o == "-") return x - y; if (o == "*" || o == ".*") return x * y; if (o == "/" || o == "./") return x / y; if (o == "\\" || o == ".\\") return y / x; if (o == "^" || o == ".^") return std::pow(x, y);
      if (o == "==") return x == y; if (o == "~=") return x != y; if (o == "<") return x < y; if (o == ">") return x > y; if (o == "<=") return x <= y; if (o == ">=") return x >= y; if (o == "&") return x != 0 && y != 0; if (o == "|") return x != 0 || y != 0; unsup("operator " + o); };
    size_t r = a->r == 1 ? b->r : a->r, n = a->n == 1 ? b->n : a->n;
    if ((a->r != r && a->r != 1) || (b->r != r && b->r != 1) || (a->n != n && a->n != 1) || (b->n != n && b->n != 1)) err("Arrays have incompatible sizes for this operation.");
    V v = mk(cmp ? LOG : DBL, r, n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < r; ++i) v->d[i + j * r] = op(a->d[(a->r == 1 ? 0 : i) + (a->n == 1 ? 0 : j) * a->r], b->d[(b->r == 1 ? 0 : i) + (b->n == 1 ? 0 : j) * b->r]);
    return v;
  }
  static std::string fmtNum(double x) { char b[64]; if (x == std::floor(x) && std::abs(x) < 1e15) snprintf(b, 64, "%.0f", x); else snprintf(b, 64, "%.5g", x); return b; }
  static std::string format(Vs const & a, size_t from)
  {
    std::string s = text(a[from]), o; size_t k = from + 1; std::vector<V> q; for (; k < a.size(); ++k) { if (a[k]->c == CHR) q.push_back(a[k]); else if (isNum(a[k])) { for (double x : a[k]->d) q.push_back(num(x)); } else unsup("formatting"); }
    size_t at = 0; bool any = false;
    do {
      any = false;
      for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') { if (i + 1 < s.size() && s[i + 1] == '%') { o += '%'; ++i; continue; } std::string sp = "%"; ++i; while (i < s.size() && !isalpha((unsigned char)s[i])) sp += s[i++]; if (i >= s.size()) break; char cv = s[i]; if (at >= q.size()) { if (!q.empty()) return o; continue; } any = true; V v = q[at++];
          if (v->c == CHR) o += text(v); else { char b[128]; double x = v->d[0]; if (cv == 'd' || cv == 'i' || cv == 'u') { if (x == std::floor(x)) snprintf(b, 128, (sp + ".0f").c_str(), x); else snprintf(b, 128, (sp + "e").c_str(), x); } else if (cv == 's') snprintf(b, 128, "%s", fmtNum(x).c_str()); else snprintf(b, 128, (sp + cv).c_str(), x); o += b; } continue; }
        if (s[i] == '\\' && i + 1 < s.size()) { ++i; o += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i]; continue; }
        o += s[i];
      }
    } while (any && at < q.size());
    return o;
  }
  V mapReal(V const & a, double (*g)(double)) { if (!isNum(a)) err("numeric value expected"); V v = mk(DBL, a->r, a->n); for (size_t i = 0; i < a->num(); ++i) v->d[i] = g(a->d[i]); return v; }
  V reduce(V const & a, Vs const & args, std::function<double(double, double)> g, double z)
  {
    int dim = args.size() > 1 ? (int)scalar(args[1]) : a->r == 1 ? 2 : 1; if (!isNum(a)) err("numeric value expected"); if (a->num() == 0) return num(z);
    V v = dim == 2 ? mk(DBL, a->r, 1) : mk(DBL, 1, a->n); for (double & x : v->d) x = z;
    std::vector<bool> first(v->num(), true);
    for (size_t j = 0; j < a->n; ++j) for (size_t i = 0; i < a->r; ++i) { size_t k = dim == 2 ? i : j; double x = a->d[i + j * a->r]; if (z != z && first[k]) v->d[k] = x; else v->d[k] = g(v->d[k], x); first[k] = false; }
    return v;
  }
  static V pair(size_t r, size_t n) { return mat(1, 2, {(double)r, (double)n}); }
  std::string clsName(V const & v) { switch (v->c) { case DBL: return "double"; case LOG: return "logical"; case CHR: return v->dq ? "string" : "char"; case U64: return "uint64"; case CELL: return "cell"; case STRUCT: return "struct"; case OBJ: return v->o->cls; case FUN: return "function_handle"; } return ""; }
  bool equal(V const & a, V const & b)
  {
    if (a->c == OBJ || b->c == OBJ) return a->c == b->c && a->o == b->o; if (a->c == CHR && b->c == CHR) return text(a) == text(b);
    if (a->c == STRUCT || b->c == STRUCT || a->c == FUN || b->c == FUN) unsup("isequal");
    if (a->r != b->r || a->n != b->n) return false; if ((a->c == CELL) != (b->c == CELL)) return false; if (a->c == U64 || b->c == U64) { if (a->c != b->c) unsup("isequal"); return a->u == b->u; }
    if (a->c == CELL) { for (size_t i = 0; i < a->num(); ++i) if (!equal(a->cell[i], b->cell[i])) return false; return true; }
    return a->d == b->d;
  }
  Vs builtin(std::string const & f, Vs const & a, int nout)
  {
    auto need = [&](size_t lo, size_t hi) { if (a.size() < lo) err("Not enough input arguments (" + f + ")."); if (a.size() > hi) err("Too many input arguments (" + f + ")."); };
    auto dims = [&](size_t & r, size_t & n) { if (a.empty()) { r = n = 1; return; } for (V const & v : a) if (v->c == CHR) unsup("class argument"); if (a.size() == 1) { if (a[0]->num() == 1) { r = n = (size_t)std::max(0.0, scalar(a[0])); } else { r = (size_t)std::max(0.0, a[0]->d.at(0)); n = (size_t)std::max(0.0, a[0]->d.at(1)); } } else { if (a.size() > 2) unsup("many dimensions"); r = (size_t)std::max(0.0, scalar(a[0])); n = (size_t)std::max(0.0, scalar(a[1])); } };
    if (f == "true" || f == "false") { if (a.empty()) return {logical(f == "true")}; size_t r, n; dims(r, n); V v = mk(LOG, r, n); for (double & x : v->d) x = f == "true"; return {v}; }
    if (f == "zeros" || f == "ones" || f == "nan" || f == "NaN" || f == "inf" || f == "Inf") { size_t r, n; dims(r, n); V v = mk(DBL, r, n); for (double & x : v->d) x = f == "zeros" ? 0 : f == "ones" ? 1 : f[0] == 'n' || f[0] == 'N' ? NAN : INFINITY; return {v}; }
    if (f == "pi") return {num(M_PI)}; if (f == "eps") return {num(2.220446049250313e-16)};
    if (f == "eye") { size_t r, n; dims(r, n); V v = mk(DBL, r, n); for (size_t i = 0; i < r && i < n; ++i) v->d[i + i * r] = 1; return {v}; }
    if (f == "cell") { size_t r, n; dims(r, n); if (a.empty()) r = n = 0; V v = mk(CELL, r, n); for (V & x : v->cell) x = empty(); return {v}; }
    if (f == "size") {
      need(1, 2); size_t r = a[0]->dq ? 1 : a[0]->r, n = a[0]->dq ? 1 : a[0]->n;
      if (a.size() == 2) { double k = scalar(a[1]); return {num(k == 1 ? (double)r : k == 2 ? (double)n : 1)}; }
      if (nout <= 1) return {pair(r, n)}; Vs o = {num((double)r), num((double)n)}; while ((int)o.size() < nout) o.push_back(num(1)); return o;
    }
    if (f == "numel") { need(1, 1); return {num(a[0]->dq ? 1 : (double)a[0]->num())}; }
    if (f == "length") { need(1, 1); return {num(a[0]->dq ? 1 : a[0]->num() ? (double)std::max(a[0]->r, a[0]->n) : 0)}; }
    if (f == "height") { need(1, 1); return {num((double)a[0]->r)}; } if (f == "width") { need(1, 1); return {num((double)a[0]->n)}; }
    if (f == "ndims") return {num(2)};
    if (f == "isempty") { need(1, 1); return {logical(!a[0]->dq && a[0]->num() == 0)}; }
    if (f == "isscalar") { need(1, 1); return {logical(a[0]->dq || a[0]->num() == 1)}; } if (f == "ismatrix") { need(1, 1); return {logical(true)}; }
    if (f == "isvector") { need(1, 1); return {logical((a[0]->r == 1 || a[0]->n == 1) && a[0]->num() >= 1)}; } if (f == "isrow") return {logical(a[0]->r == 1)}; if (f == "iscolumn") return {logical(a[0]->n == 1)};
    if (f == "isnumeric") { need(1, 1); return {logical(a[0]->c == DBL || a[0]->c == U64)}; } if (f == "isreal") return {logical(a[0]->c == DBL || a[0]->c == LOG || a[0]->c == U64 || a[0]->c == CHR)};
    if (f == "ischar") { need(1, 1); return {logical(a[0]->c == CHR && !a[0]->dq)}; } if (f == "isstring") { need(1, 1); return {logical(a[0]->dq)}; } if (f == "iscell") return {logical(a[0]->c == CELL)}; if (f == "isstruct") return {logical(a[0]->c == STRUCT)};
    if (f == "islogical") return {logical(a[0]->c == LOG)}; if (f == "isobject") return {logical(a[0]->c == OBJ)}; if (f == "isfloat") return {logical(a[0]->c == DBL)}; if (f == "iscellstr") { if (a[0]->c != CELL) return {logical(false)}; for (V const & v : a[0]->cell) if (v->c != CHR) return {logical(false)}; return {logical(true)}; }
    if (f == "isvalid") { if (a[0]->c != OBJ) err("isvalid"); return {logical(!a[0]->o->dead)}; }
    if (f == "isa") { need(2, 2); std::string t = text(a[1]); if (a[0]->c == OBJ) return {logical(isA(a[0]->o->cls, t))}; std::string c = clsName(a[0]); return {logical(c == t || (t == "numeric" && (a[0]->c == DBL || a[0]->c == U64)) || (t == "float" && a[0]->c == DBL))}; }
    if (f == "class") { need(1, 1); return {chr(clsName(a[0]))}; }
    if (f == "ismethod") { return {logical(a[0]->c == OBJ && method(a[0]->o->cls, text(a[1])))}; } if (f == "isprop") { return {logical(a[0]->c == OBJ && a[0]->o->p.count(text(a[1])))}; } if (f == "isfield") return {logical(a[0]->c == STRUCT && a[0]->st.count(text(a[1])))};
    if (f == "strcmp" || f == "strcmpi") { need(2, 2); if (a[0]->c == CELL || a[1]->c == CELL) { if (a[0]->c == CELL && a[1]->c == CELL) unsup("strcmp of cells"); V const & c = a[0]->c == CELL ? a[0] : a[1], t = a[0]->c == CELL ? a[1] : a[0]; V r = mk(LOG, c->r, c->n); for (size_t i = 0; i < c->num(); ++i) r->d[i] = truth(builtin(f, {c->cell[i], t}, 1)[0]); return {r}; } if (a[0]->c != CHR || a[1]->c != CHR) return {logical(false)}; std::string x = text(a[0]), y = text(a[1]); if (f == "strcmpi") { for (char & c : x) c = (char)tolower(c); for (char & c : y) c = (char)tolower(c); } return {logical(x == y)}; }
    if (f == "strncmp") { need(3, 3); if (a[0]->c != CHR || a[1]->c != CHR) return {logical(false)}; size_t n = (size_t)scalar(a[2]); std::string x = text(a[0]), y = text(a[1]); return {logical(x.size() >= n && y.size() >= n && x.substr(0, n) == y.substr(0, n))}; }
    if (f == "ismember") { need(2, 2); if (a[0]->c == CHR && a[1]->c == CELL) { for (V const & v : a[1]->cell) if (v->c == CHR && text(v) == text(a[0])) return {logical(true)}; return {logical(false)}; } if (a[0]->c == CHR && (a[0]->dq || a[1]->dq)) return {logical(text(a[0]) == text(a[1]))}; if (!isNum(a[0]) || !isNum(a[1])) unsup(f); V r = mk(LOG, a[0]->r, a[0]->n); for (size_t i = 0; i < a[0]->num(); ++i) r->d[i] = std::find(a[1]->d.begin(), a[1]->d.end(), a[0]->d[i]) != a[1]->d.end(); return {r}; }
    if (f == "endsWith" || f == "startsWith" || f == "contains") { need(2, 2); if (a[0]->c != CHR) err("text expected"); std::string x = text(a[0]); Vs pats; if (a[1]->c == CELL) pats = a[1]->cell; else pats = {a[1]}; for (V const & v : pats) { std::string y = text(v); if (f == "contains" ? x.find(y) != std::string::npos : x.size() >= y.size() && (f == "endsWith" ? x.substr(x.size() - y.size()) == y : x.substr(0, y.size()) == y)) return {logical(true)}; } return {logical(false)}; }
    if (f == "lower" || f == "upper" || f == "strtrim") { std::string x = text(a[0]); if (f == "strtrim") { size_t p = x.find_first_not_of(" \t\n"), q = x.find_last_not_of(" \t\n"); x = p == std::string::npos ? "" : x.substr(p, q - p + 1); } else for (char & c : x) c = (char)(f == "lower" ? tolower(c) : toupper(c)); return {chr(x, a[0]->dq)}; }
    if (f == "char") { need(1, 1); if (a[0]->c == CHR) return {chr(text(a[0]))}; return {convert(a[0], CHR)}; } if (f == "string") { need(1, 1); if (a[0]->c == CHR) return {chr(text(a[0]), true)}; if (isNum(a[0]) && a[0]->num() == 1) return {chr(fmtNum(a[0]->d[0]), true)}; unsup(f); }
    if (f == "double") { need(1, 1); if (a[0]->c == U64) { V v = mk(DBL, a[0]->r, a[0]->n); for (size_t i = 0; i < a[0]->num(); ++i) v->d[i] = (double)a[0]->u[i]; return {v}; } return {convert(a[0], DBL)}; } if (f == "logical") { need(1, 1); V v = mk(LOG, a[0]->r, a[0]->n); if (!isNum(a[0])) err("logical"); for (size_t i = 0; i < a[0]->num(); ++i) v->d[i] = a[0]->d[i] != 0; return {v}; }
    if (f == "num2str") { need(1, 2); if (a[0]->c == CHR) return {a[0]}; if (!isNum(a[0]) || a[0]->num() != 1 || a.size() > 1) unsup("num2str"); return {chr(fmtNum(a[0]->d[0]))}; }
    if (f == "strcat") { bool dq = false; std::string s; for (V const & v : a) { if (v->c != CHR) unsup("strcat"); dq = dq || v->dq; std::string t = text(v); if (!v->dq) while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); s += t; } return {chr(s, dq)}; }
    if (f == "sprintf") return {chr(format(a, 0))}; if (f == "fprintf") { size_t k = !a.empty() && a[0]->c != CHR ? 1 : 0; if (k < a.size()) shown += format(a, k); return {}; }
    if (f == "disp" || f == "display") { need(1, 1); if (a[0]->c == CHR) shown += text(a[0]) + "\n"; else if (isNum(a[0])) { drawn.push_back({"disp", a}); char b[64]; for (size_t i = 0; i < a[0]->r; ++i) { for (size_t j = 0; j < a[0]->n; ++j) { snprintf(b, 64, " %.17g", a[0]->d[i + j * a[0]->r]); shown += b; } shown += "\n"; } } else unsup("disp"); return {}; }
    if (f == "error") { need(1, 100); if (a[0]->c == STRUCT) { auto it = a[0]->st.find("message"); err(it == a[0]->st.end() ? "error" : text(it->second)); } std::string m = text(a[0]); if (a.size() > 1) { bool id = m.find(':') != std::string::npos && m.find(' ') == std::string::npos; if (id) m = format(a, 1); else m = format(a, 0); } err(m); }
    if (f == "rethrow") { if (a[0]->c == STRUCT && a[0]->st.count("message")) err(text(a[0]->st["message"])); err("error"); }
    if (f == "assert") { if (!truth(a.at(0))) err(a.size() > 1 ? text(a[1]) : "assertion failed"); return {}; } if (f == "warning") return {};
    if (f == "isfile" || f == "exist") { need(1, 2); if (a[0]->c != CHR) { if (f == "isfile") err("isfile: text expected"); return {num(0)}; } std::ifstream s(text(a[0])); bool ok = s.good(); if (f == "isfile") return {logical(ok)}; return {num(ok ? 2 : 0)}; }
    if (f == "fileparts") { std::string s = text(a.at(0)); size_t sl = s.find_last_of('/'); std::string dir = sl == std::string::npos ? "" : s.substr(0, sl), nm = sl == std::string::npos ? s : s.substr(sl + 1), ex; size_t dt = nm.find_last_of('.'); if (dt != std::string::npos) { ex = nm.substr(dt); nm = nm.substr(0, dt); } return {chr(dir), chr(nm), chr(ex)}; }
    for (auto const & g : std::vector<std::pair<char const *, double (*)(double)>>{{"sin", std::sin}, {"cos", std::cos}, {"tan", std::tan}, {"asin", std::asin}, {"acos", std::acos}, {"atan", std::atan}, {"sqrt", std::sqrt}, {"abs", std::fabs}, {"floor", std::floor}, {"ceil", std::ceil}, {"round", std::round}, {"exp", std::exp}, {"log", std::log}, {"fix", std::trunc}}) if (f == g.first) { need(1, 1); return {mapReal(a[0], g.second)}; }
    if (f == "isnan" || f == "isinf" || f == "isfinite") { need(1, 1); if (!isNum(a[0])) return {logical(f == "isfinite")}; V v = mk(LOG, a[0]->r, a[0]->n); for (size_t i = 0; i < a[0]->num(); ++i) { double x = a[0]->d[i]; v->d[i] = f == "isnan" ? x != x : f == "isinf" ? std::isinf(x) : std::isfinite(x); } return {v}; }
    if (f == "plus" || f == "minus" || f == "times" || f == "mtimes" || f == "rdivide" || f == "eq" || f == "ne" || f == "lt" || f == "gt" || f == "le" || f == "ge" || f == "and" || f == "or") { need(2, 2); static std::map<std::string, std::string> m = {{"plus", "+"}, {"minus", "-"}, {"times", ".*"}, {"mtimes", "*"}, {"rdivide", "./"}, {"eq", "=="}, {"ne", "~="}, {"lt", "<"}, {"gt", ">"}, {"le", "<="}, {"ge", ">="}, {"and", "&"}, {"or", "|"}}; return {binary(m[f], a[0], a[1])}; }
    if (f == "not") { need(1, 1); V v = mk(LOG, a[0]->r, a[0]->n); for (size_t i = 0; i < a[0]->num(); ++i) v->d[i] = a[0]->d[i] == 0; return {v}; } if (f == "uminus") { return {binary("-", num(0), a.at(0))}; }
    if (f == "transpose" || f == "ctranspose") { need(1, 1); V x = a[0]; V r = mk(x->c, x->n, x->r); for (size_t i = 0; i < x->r; ++i) for (size_t j = 0; j < x->n; ++j) put(r, j + i * x->n, x, i + j * x->r); return {r}; }
    if (f == "mod" || f == "rem") { need(2, 2); double x = scalar(a[0]), y = scalar(a[1]); return {num(f == "mod" ? x - std::floor(x / y) * y : std::fmod(x, y))}; } if (f == "atan2" || f == "hypot") { need(2, 2); return {num(f == "atan2" ? std::atan2(scalar(a[0]), scalar(a[1])) : std::hypot(scalar(a[0]), scalar(a[1])))}; }
    if (f == "max" || f == "min") { need(1, 3); if (nout > 1) unsup(f); if (a.size() == 2) { V v = binary("+", binary("*", a[0], num(0)), binary("*", a[1], num(0))); for (size_t j = 0; j < v->n; ++j) for (size_t i = 0; i < v->r; ++i) { double x = a[0]->d[(a[0]->r == 1 ? 0 : i) + (a[0]->n == 1 ? 0 : j) * a[0]->r], y = a[1]->d[(a[1]->r == 1 ? 0 : i) + (a[1]->n == 1 ? 0 : j) * a[1]->r]; v->d[i + j * v->r] = f == "max" ? std::max(x, y) : std::min(x, y); } return {v}; } if (a.size() == 3) unsup(f); return {reduce(a[0], {a[0]}, [&](double x, double y) { return f == "max" ? std::max(x, y) : std::min(x, y); }, NAN)}; }
    if (f == "sum") { need(1, 2); return {reduce(a[0], a, [](double x, double y) { return x + y; }, 0)}; } if (f == "prod") { need(1, 2); return {reduce(a[0], a, [](double x, double y) { return x * y; }, 1)}; }
    if (f == "mean") { need(1, 2); V s = reduce(a[0], a, [](double x, double y) { return x + y; }, 0); double k = (double)(a.size() > 1 ? (scalar(a[1]) == 1 ? a[0]->r : a[0]->n) : a[0]->r == 1 ? a[0]->n : a[0]->r); for (double & x : s->d) x /= k; return {s}; }
    if (f == "any" || f == "all") { need(1, 2); V s = reduce(a[0], a, [&](double x, double y) { return f == "any" ? (x != 0 || y != 0) : (x != 0 && y != 0); }, f == "any" ? 0 : 1); s->c = LOG; return {s}; }
    if (f == "norm") { need(1, 1); if (a[0]->r != 1 && a[0]->n != 1) unsup("matrix norm"); double s = 0; for (double x : a[0]->d) s += x * x; return {num(std::sqrt(s))}; }
    if (f == "dot") { need(2, 2); double s = 0; if (a[0]->num() != a[1]->num()) err("dot"); for (size_t i = 0; i < a[0]->num(); ++i) s += a[0]->d[i] * a[1]->d[i]; return {num(s)}; }
    if (f == "cross") { need(2, 2); if (a[0]->num() != 3 || a[1]->num() != 3) err("cross"); V v = mk(DBL, a[0]->r, a[0]->n); for (int i = 0; i < 3; ++i) v->d[i] = a[0]->d[(i + 1) % 3] * a[1]->d[(i + 2) % 3] - a[0]->d[(i + 2) % 3] * a[1]->d[(i + 1) % 3]; return {v}; }
    if (f == "linspace") { need(2, 3); size_t n = a.size() > 2 ? (size_t)scalar(a[2]) : 100; V v = mk(DBL, 1, n); double x = scalar(a[0]), y = scalar(a[1]); for (size_t i = 0; i < n; ++i) v->d[i] = n == 1 ? y : x + (y - x) * (double)i / (double)(n - 1); if (n) v->d[n - 1] = y; return {v}; }
    if (f == "colon") { need(2, 2); V v = mk(DBL, 1, 0); for (double x = scalar(a[0]); x <= scalar(a[1]); x += 1) { v->d.push_back(x); ++v->n; } return {v}; }
    if (f == "repmat") { need(2, 3); size_t r = (size_t)scalar(a[1]), n = a.size() > 2 ? (size_t)scalar(a[2]) : a[1]->num() > 1 ? (size_t)a[1]->d[1] : r; V v = mk(a[0]->c, a[0]->r * r, a[0]->n * n); for (size_t j = 0; j < v->n; ++j) for (size_t i = 0; i < v->r; ++i) put(v, i + j * v->r, a[0], i % a[0]->r + (j % a[0]->n) * a[0]->r); return {v}; }
    if (f == "reshape") { size_t r, n; if (a.size() == 2) { r = (size_t)a[1]->d.at(0); n = (size_t)a[1]->d.at(1); } else { need(3, 3); size_t t = a[0]->num(); r = a[1]->num() ? (size_t)scalar(a[1]) : t / (size_t)scalar(a[2]); n = a[2]->num() ? (size_t)scalar(a[2]) : t / r; } if (r * n != a[0]->num()) err("reshape"); V v = std::make_shared<Val>(*a[0]); v->r = r; v->n = n; return {v}; }
    if (f == "horzcat") return {cat(a, 2)}; if (f == "vertcat") return {cat(a, 1)}; if (f == "cat") { Vs b(a.begin() + 1, a.end()); return {cat(b, scalar(a.at(0)) == 1 ? 1 : 2)}; }
    if (f == "isequal") { need(2, 2); return {logical(equal(a[0], a[1]))}; }
    if (f == "find") { need(1, 1); V v = a[0]->r == 1 ? mk(DBL, 1, 0) : mk(DBL, 0, 1); for (size_t i = 0; i < a[0]->num(); ++i) if (a[0]->d[i]) { v->d.push_back((double)i + 1); ++(a[0]->r == 1 ? v->n : v->r); } return {v}; }
    if (f == "feval") { Vs b(a.begin() + 1, a.end()); return apply(a.at(0), b, nout); }
    if (f == "func2str" || f == "str2func") { if (f == "str2func") { V v = std::make_shared<Val>(); v->c = FUN; v->r = v->n = 1; v->f = std::make_shared<Anon>(); v->f->fn = text(a.at(0)); return {v}; } unsup(f); }
    if (f == "deal") { if (a.size() == 1) { Vs o; for (int i = 0; i < std::max(1, nout); ++i) o.push_back(a[0]); return o; } return a; }
    if (f == "struct") { V v = std::make_shared<Val>(); v->c = STRUCT; v->r = v->n = 1; for (size_t i = 0; i + 1 < a.size(); i += 2) { if (a[i + 1]->c == CELL) unsup("structure array"); v->st[text(a[i])] = a[i + 1]; } return {v}; }
    if (f == "arrayfun" || f == "cellfun") {
      Vs b(a.begin() + 1, a.end()); bool uni = true; for (size_t i = 0; i + 1 < b.size(); ++i) if (b[i]->c == CHR && text(b[i]) == "UniformOutput") { uni = truth(b[i + 1]); b.resize(i); break; } if (b.empty()) err(f); size_t n = b[0]->num(); bool obj = b[0]->c == OBJ; if (obj) unsup("arrayfun over objects");
      V r = uni ? nullptr : mk(CELL, b[0]->r, b[0]->n);
      for (size_t i = 0; i < n; ++i) { Vs x; for (V const & v : b) { if (v->num() != n) err(f + ": sizes differ"); if (f == "cellfun") { if (v->c != CELL) err("cellfun: cell expected"); x.push_back(v->cell[i]); } else x.push_back(index(v, {num((double)i + 1)})); } Vs o = apply(a[0], x, nout > 0 ? 1 : 0); if (nout <= 0 && o.empty()) continue; if (o.empty()) err("no value"); if (!uni) r->cell[i] = o[0]; else { if (o[0]->c == OBJ || o[0]->c == CELL || o[0]->num() != 1) err(f + ": output is not uniform"); if (!r) r = mk(o[0]->c, b[0]->r, b[0]->n); put(r, i, convert(o[0], r->c), 0); } }
      if (!r) r = mk(DBL, b[0]->r, b[0]->n); if (nout <= 0) return {r}; return {r};
    }
    if (f == "num2cell") { V v = mk(CELL, a.at(0)->r, a[0]->n); for (size_t i = 0; i < a[0]->num(); ++i) v->cell[i] = index(a[0], {num((double)i + 1)}); return {v}; }
    if (f == "cell2mat") { V const & c = a.at(0); if (c->c != CELL) err(f); Vs rows; for (size_t i = 0; i < c->r; ++i) { Vs x; for (size_t j = 0; j < c->n; ++j) x.push_back(c->cell[i + j * c->r]); rows.push_back(cat(x, 2)); } return {cat(rows, 1)}; }
    if (f == "meshgrid" || f == "ndgrid") { V const & x = a.at(0), & y = a.size() > 1 ? a[1] : a[0]; bool g = f == "ndgrid"; size_t r = g ? x->num() : y->num(), n = g ? y->num() : x->num(); V X = mk(DBL, r, n), Y = mk(DBL, r, n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < r; ++i) { X->d[i + j * r] = x->d[g ? i : j]; Y->d[i + j * r] = y->d[g ? j : i]; } return {X, Y}; }
    if (f == "cylinder") { // radii, number of points around
      V r = a.empty() ? mat(1, 2, {1, 1}) : a[0]; size_t n = a.size() > 1 ? (size_t)scalar(a[1]) : 20, m = r->num(); if (m == 1) { r = mat(1, 2, {r->d[0], r->d[0]}); m = 2; }
      V X = mk(DBL, m, n + 1), Y = mk(DBL, m, n + 1), Z = mk(DBL, m, n + 1); for (size_t j = 0; j <= n; ++j) { double t = 2 * M_PI * (double)j / (double)n, sn = j == n ? 0 : std::sin(t); for (size_t i = 0; i < m; ++i) { X->d[i + j * m] = r->d[i] * std::cos(t); Y->d[i + j * m] = r->d[i] * sn; Z->d[i + j * m] = (double)i / (double)(m - 1); } }
      return {X, Y, Z};
    }
    static char const * gr[] = {"hold", "axis", "grid", "box", "figure", "plot", "plot3", "line", "patch", "fill3", "surf", "mesh", "quiver3", "quiver", "scatter3", "xlim", "ylim", "zlim", "xlabel", "ylabel", "zlabel", "title", "view", "drawnow", "subplot", "clf", "cla", "close", "clc", "clear", "set", "colormap", "shading", "trisurf", "trimesh", "legend", "gca", "gcf", "light", "camlight", "lighting", "tic", "toc", "addpath"};
    for (char const * g : gr) if (f == g) { drawn.push_back({f, a}); V v = std::make_shared<Val>(); v->c = STRUCT; v->r = v->n = 1; return {v}; }
    if (f == "handle") unsup("handle");
    static char const * no[] = {"mex_shell", "mex_flat", "mex_mesh", "mex_triangleground"}; for (char const * g : no) if (f == g) unsup(f);
    // an unknown name: a call that MATLAB itself may know
    unknown.push_back(f); unsup("function '" + f + "'");
  }
  std::vector<std::string> unknown;
  static Interp *& current() { static Interp * p = nullptr; return p; }
};
inline Inst::~Inst()
{
  Interp * ip = Interp::current(); if (!ip || dead || shadow) return;
  auto s = std::make_shared<Inst>(); s->cls = cls; s->p = p; s->shadow = true;
  V v = ip->object(s);
  // errors of a destructor become warnings in MATLAB
  try { ip->destroy(cls, v); } catch (Error const & e) { ip->dtorErrors.push_back(cls + ": " + e.msg); } catch (Unsupported const & e) { ip->dtorErrors.push_back("?" + e.what); }
}
}
#endif
