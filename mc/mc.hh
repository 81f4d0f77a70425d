// Exhaustive bounded exploration core: enumerates cases, shards them over
// processes, records violations, coverage counters and the case in flight (so
// that a crash, a sanitizer abort or a hang is attributed to its exact case).
#ifndef MC_HH
#define MC_HH
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <iostream>
#include <fstream>
#include <sstream>
#include <limits>
#include <stdexcept>
#include <algorithm>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

namespace mc
{
  struct State {
    bool thorough = false;
    long shard = 0, nshards = 1;
    long long only = -1;           // run just this case
    std::string outpath;
    char * cur = nullptr;          // shared mapping with the case in flight
    static const size_t CUR = 4096;
    long long idx = -1;            // global case index (identical in every shard)
    long long evaluations = 0, nontrivial = 0, transitions = 0, traces = 0, checks = 0;
    bool cur_nontrivial = false;
    std::unordered_set<uint64_t> states, outcomes, ntset;
    std::vector<std::string> samples;
    struct V { std::string key, detail; long long idx; std::string text; };
    std::vector<V> violations;
    std::map<std::string,long long> vcount;
    std::map<std::string,long long> notes;
    volatile long long beat = 0, lastbeat = -1;
    int hang_s = 60;
  };
  inline State & S() { static State s; return s; }

  inline std::string jesc(std::string const & in)
  {
    std::string o;
    for (unsigned char c : in) {
      switch (c) {
        case '"': o += "\\\""; break; case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
        default: if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c);
      }
    }
    return o;
  }
  inline uint64_t fnv(void const * p, size_t n, uint64_t h = 1469598103934665603ull)
  { unsigned char const * c = (unsigned char const *)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
  inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }
  inline uint64_t hs(std::string const & s) { return fnv(s.data(), s.size()); }
  // quantized hash of a real: used only for distinct-outcome statistics
  inline uint64_t mixd(uint64_t h, double d)
  { if (d != d) return mix(h, 0x7ff8); if (std::isinf(d)) return mix(h, d > 0 ? 1 : 2); return mix(h, (uint64_t)(long long)std::llround(d * 1e6)); }

  inline void dump(int code);
  inline void on_alarm(int)
  {
    State & s = S();
    if (s.beat == s.lastbeat) {
      static const char m[] = "\nMC-HANG\n";
      if (s.cur) memcpy(s.cur + State::CUR - 16, "MC-HANG", 8);
      ssize_t r = write(2, m, sizeof m - 1); (void)r;
      _exit(77);
    }
    s.lastbeat = s.beat;
    alarm(s.hang_s);
  }

  inline std::string vfmt(char const * f, va_list ap)
  { char b[6000]; vsnprintf(b, sizeof b, f, ap); return b; }
  inline std::string fmt(char const * f, ...)
  { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

  inline void init(int argc, char ** argv)
  {
    State & s = S();
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--tier") s.thorough = std::string(argv[++i]) == "thorough";
      else if (a == "--shard") { sscanf(argv[++i], "%ld/%ld", &s.shard, &s.nshards); }
      else if (a == "--out") s.outpath = argv[++i];
      else if (a == "--only") s.only = atoll(argv[++i]);
      else if (a == "--hang") s.hang_s = atoi(argv[++i]);
    }
    if (!s.outpath.empty()) {
      std::string c = s.outpath + ".cur";
      int fd = open(c.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd < 0 || ftruncate(fd, State::CUR)) { perror("cur"); exit(2); }
      s.cur = (char *)mmap(0, State::CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    // the library logs to stdout; keep the runner's stdout clean
    std::cout.rdbuf(nullptr);
    std::cout.setstate(std::ios::badbit);
    signal(SIGALRM, on_alarm);
    alarm(s.hang_s);
  }

  inline bool thorough() { return S().thorough; }
  // advance to the next case; true when this process must run it
  inline bool next()
  {
    State & s = S();
    ++s.idx; s.beat = s.beat + 1;
    if (s.only >= 0) return s.idx == s.only;
    return (s.idx % s.nshards) == s.shard;
  }
  inline void setcur(std::string const & t)
  {
    State & s = S();
    if (!s.cur) return;
    snprintf(s.cur, State::CUR - 16, "%lld\n%s", s.idx, t.c_str());
  }
  static thread_local std::string cur_text;
  inline void fail(std::string const & key, char const * f, ...)
  {
    va_list ap; va_start(ap, f); std::string d = vfmt(f, ap); va_end(ap);
    State & s = S();
    long long n = ++s.vcount[key];
    if (n <= 3 && s.violations.size() < 200) s.violations.push_back({key, d, s.idx, cur_text});
  }
  // check helper
  #define MC_OK(cond, key, ...) do { ++mc::S().checks; if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
  inline void nontrivial(bool b = true) { if (b) S().cur_nontrivial = true; }
  inline void outcome(uint64_t h) { if (S().outcomes.size() < 4000000) S().outcomes.insert(h); }
  inline bool state(uint64_t h) { return S().states.insert(h).second; }
  inline void transition(long n = 1) { S().transitions += n; }
  inline void trace(long n = 1) { S().traces += n; }
  inline void note(std::string const & k, long long n = 1) { S().notes[k] += n; }

  // run one enumerated case; text is built lazily only when the case is ours
  template <class F, class T> inline void kase(F && body, T && text)
  {
    if (!next()) return;
    State & s = S();
    cur_text = text();
    setcur(cur_text);
    s.cur_nontrivial = false;
    ++s.evaluations;
    try { body(); }
    catch (std::exception const & e) { fail("exception", "unexpected error: %s", e.what()); }
    catch (...) { fail("exception", "unexpected non-standard exception"); }
    if (s.cur_nontrivial) {
      ++s.nontrivial; s.ntset.insert(hs(cur_text));
      if (s.samples.size() < 2 || (s.samples.size() < 4 && s.nontrivial % 997 == 0)) s.samples.push_back(cur_text);
    }
  }

  inline int finish()
  {
    State & s = S();
    alarm(0);
    FILE * f = s.outpath.empty() ? stdout : fopen(s.outpath.c_str(), "w");
    fprintf(f, "{\"evaluations\":%lld,\"nontrivial\":%lld,\"transitions\":%lld,\"traces\":%lld,\"checks\":%lld,\"cases_total\":%lld,",
            s.evaluations, s.nontrivial, s.transitions, s.traces, s.checks, s.idx + 1);
    fprintf(f, "\"samples\":[");
    for (size_t i = 0; i < s.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(s.samples[i]).c_str());
    fprintf(f, "],\"notes\":{");
    bool first = true;
    for (auto const & n : s.notes) { fprintf(f, "%s\"%s\":%lld", first ? "" : ",", jesc(n.first).c_str(), n.second); first = false; }
    fprintf(f, "},\"vcount\":{");
    first = true;
    for (auto const & n : s.vcount) { fprintf(f, "%s\"%s\":%lld", first ? "" : ",", jesc(n.first).c_str(), n.second); first = false; }
    fprintf(f, "},\"violations\":[");
    for (size_t i = 0; i < s.violations.size(); ++i)
      fprintf(f, "%s{\"key\":\"%s\",\"idx\":%lld,\"case\":\"%s\",\"detail\":\"%s\"}", i ? "," : "", jesc(s.violations[i].key).c_str(),
              s.violations[i].idx, jesc(s.violations[i].text).c_str(), jesc(s.violations[i].detail).c_str());
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    // hash sets, merged by the runner
    if (!s.outpath.empty()) {
      FILE * h = fopen((s.outpath + ".states").c_str(), "wb");
      for (uint64_t v : s.states) fwrite(&v, 8, 1, h); fclose(h);
      h = fopen((s.outpath + ".outcomes").c_str(), "wb");
      for (uint64_t v : s.outcomes) fwrite(&v, 8, 1, h); fclose(h);
      h = fopen((s.outpath + ".nt").c_str(), "wb");
      for (uint64_t v : s.ntset) fwrite(&v, 8, 1, h); fclose(h);
    }
    return 0;
  }
}
#endif
