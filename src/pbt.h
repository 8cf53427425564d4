// Minimal property-based testing engine: choice-sequence generators (so that
// every generated value shrinks and replays), forked workers, crash/hang capture,
// shrinking in forked children, JSON result file.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>


namespace pbt {

struct Failure { std::string key, msg; };
struct Discard {};

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng { uint64_t s; uint64_t next() { return mix(s++); } };

class Case {
public:
  std::vector<uint64_t> choices;
  size_t pos = 0;
  bool replay = false;
  Rng rng{0};
  bool thorough = false;
  long idx = 0;
  bool isNontrivial = false;
  volatile long* lenientFlag = nullptr;
  uint64_t* log = nullptr; size_t logCap = 0;
  // the case may legitimately be expensive: running out of CPU is inconclusive
  void lenientHang() { if (lenientFlag) *lenientFlag = 1; label("lenient-cpu"); }
  std::string desc;
  std::vector<std::string> labels;
  static char*& shm() { static char* p = nullptr; return p; }   // survives a crash of the child

  // description of the case, written down before the code under test runs
  void note(const std::string& s) {
    desc += s;
    if (shm()) { size_t n = std::min<size_t>(desc.size(), 65534); memcpy(shm(), desc.data(), n); shm()[n] = 0; }
  }

  // value in [0,n)
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (n == 0) n = 1;
    if (replay) {
      v = pos < choices.size() ? choices[pos] % n : 0;
    } else {
      v = n == 1 ? 0 : rng.next() % n;
      choices.push_back(v);
      if (log && log[0] < logCap) { log[1 + log[0]] = v; ++log[0]; }
    }
    ++pos;
    return v;
  }
  int in(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }
  bool coin() { return draw(2) != 0; }
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }  // shrinks to false
  uint64_t bits() { return draw(UINT64_MAX); }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  // index with given weights
  int weighted(std::initializer_list<int> w) {
    int sum = 0; for (int x : w) sum += x;
    int v = (int)draw(sum), i = 0;
    for (int x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
  }
  void nontrivial() { isNontrivial = true; }
  void label(const std::string& s) { labels.push_back(s); }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
  [[noreturn]] void discard(const std::string& why) { label("discard:" + why); throw Discard(); }
};

typedef std::function<void(Case&)> Prop;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
inline double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec*1e-9; }

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r + "\"";
}

// what the code under test wrote to std::cerr in this case
struct CerrCapture {
  std::stringbuf buf;
  std::streambuf* old;
  CerrCapture() { old = std::cerr.rdbuf(&buf); }
  ~CerrCapture() { std::cerr.rdbuf(old); }
  std::string str() { return buf.str(); }
};

struct Shared {
  volatile long curIdx[64];
  volatile long inCase[64];     // 1 while a case runs
  volatile long done[64];
  volatile long failIdx[64];
  volatile long stop;
  volatile long lenient[64];    // a CPU-limit hit in this case is inconclusive, not a failure
  char key[64][256];
  char msg[64][8192];
};

struct RunResult { bool failed=false, discarded=false, hang=false; std::string key, msg; };

struct Options {
  uint64_t seed = 1; long cases = 1000; double time = 60; int workers = 8;
  double hang = 60; bool thorough = false; std::string out, replay, series; double shrinkTime = 60;
  long only = -1;
};

inline Options& opts() { static Options o; return o; }
inline double& hangSecs() { return opts().hang; }

inline void onHang(int) { _exit(43); }
inline void armHang(double secs) {
  itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)secs; it.it_value.tv_usec = (long)((secs - (long)secs)*1e6);
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

inline void limits() {
  struct rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
#if !defined(__SANITIZE_ADDRESS__) && !defined(VERIF_ASAN)
  r.rlim_cur = r.rlim_max = 3ull<<30; setrlimit(RLIMIT_AS, &r);
#endif
}

inline RunResult runInProc(const Prop& p, Case& c) {
  RunResult r;
  try { p(c); }
  catch (Failure& f) { r.failed = true; r.key = f.key; r.msg = f.msg; }
  catch (Discard&) { r.discarded = true; }
  catch (std::exception& e) { r.failed = true; r.key = "exception"; r.msg = e.what(); }
  return r;
}

inline std::string tailOf(const std::string& path, size_t n = 6000) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss; ss << f.rdbuf();
  std::string s = ss.str();
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p != std::string::npos) { s = s.substr(p > 200 ? p - 200 : 0); if (s.size() > n) s.resize(n); }
  else if (s.size() > n) s = s.substr(s.size() - n);
  return s;
}

inline std::string statusText(int st) {
  std::ostringstream o;
  if (WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st);
  else if (WEXITSTATUS(st) == 43) o << "did not finish within the CPU limit";
  else o << "process exited with status " << WEXITSTATUS(st);
  return o.str();
}

// Run one choice sequence in a forked child.
inline RunResult runForked(const Prop& p, const std::vector<uint64_t>& ch, std::string* desc, double hang,
                           std::vector<uint64_t>* used = nullptr) {
  char errf[] = "/tmp/pbt_err_XXXXXX"; int efd = mkstemp(errf);
  int fd[2]; if (pipe(fd)) abort();
  if (!Case::shm()) Case::shm() = (char*)mmap(nullptr, 65536, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  Case::shm()[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); limits(); dup2(efd, 2);
    signal(SIGVTALRM, onHang); armHang(hang);
    Case c; c.choices = ch; c.replay = true; c.thorough = opts().thorough;
    RunResult r = runInProc(p, c);
    std::ostringstream o; o << (r.failed ? 1 : 0) << '\n' << c.pos << '\n' << r.key << '\n' << r.msg.size() << '\n' << r.msg << c.desc;
    std::string s = o.str(); size_t off = 0;
    while (off < s.size()) { ssize_t k = write(fd[1], s.data()+off, s.size()-off); if (k <= 0) break; off += k; }
    close(fd[1]);
    _exit(42);
  }
  close(fd[1]);
  std::string s; char b[65536]; ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
  close(fd[0]);
  int st; waitpid(pid, &st, 0);
  RunResult r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
    std::istringstream is(s); int f; size_t used_n, n; is >> f >> used_n; is.ignore();
    std::getline(is, r.key); is >> n; is.ignore();
    r.msg.resize(n); is.read(&r.msg[0], n);
    std::string d((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    if (desc) *desc = d;
    if (used && used_n < used->size()) used->resize(used_n);
    r.failed = f == 1;
  } else {
    r.failed = true;
    bool h = WIFEXITED(st) && WEXITSTATUS(st) == 43;
    r.hang = h; r.key = h ? "hang" : "crash"; r.msg = statusText(st) + "\n" + tailOf(errf);
    if (desc) *desc = Case::shm();
  }
  close(efd); unlink(errf);
  return r;
}

// Re-run a worker's whole series of cases up to lastIdx in a fresh child (for
// failures that need state left behind by earlier cases).
inline RunResult runSeries(const Prop& p, long from, long step, long lastIdx, const std::function<uint64_t(long)>& seedOf, double hang) {
  char errf[] = "/tmp/pbt_err_XXXXXX"; int efd = mkstemp(errf);
  int fd[2]; if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); limits(); dup2(efd, 2); signal(SIGVTALRM, onHang);
    RunResult r;
    for (long idx = from; idx <= lastIdx && !r.failed; idx += step) {
      Case c; c.rng.s = seedOf(idx); c.idx = idx; c.thorough = opts().thorough;
      armHang(hang); r = runInProc(p, c); armHang(0);
    }
    std::string s = (r.failed ? "1" : "0") + r.key + "\n" + r.msg; 
    ssize_t k = write(fd[1], s.data(), std::min<size_t>(s.size(), 60000)); (void)k;
    _exit(42);
  }
  close(fd[1]); std::string s; char b[65536]; ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
  close(fd[0]); int st; waitpid(pid, &st, 0);
  RunResult r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
    r.failed = s.size() && s[0] == '1'; size_t nl = s.find('\n');
    if (r.failed) { r.key = s.substr(1, nl-1); r.msg = s.substr(nl+1); }
  } else { r.failed = true; r.hang = WIFEXITED(st) && WEXITSTATUS(st) == 43; r.key = r.hang ? "hang" : "crash"; r.msg = statusText(st) + "\n" + tailOf(errf); }
  close(efd); unlink(errf);
  return r;
}

inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, const std::string& key, double hang, double budget) {
  double t0 = now();
  auto ok = [&](std::vector<uint64_t>& cand) {
    if (now() - t0 > budget) return false;
    std::vector<uint64_t> used = cand;
    RunResult r = runForked(p, cand, nullptr, hang, &used);
    if (r.failed && r.key == key) { best = used; return true; }
    return false;
  };
  auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    return a.size() != b.size() ? a.size() < b.size() : a < b; };
  { std::vector<uint64_t> c = best; ok(c); }
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t k = 32; k >= 1; k /= 2) {
      for (size_t i = 0; i + 1 <= best.size() && now() - t0 < budget;) {
        if (i + k > best.size()) break;
        std::vector<uint64_t> c = best; c.erase(c.begin()+i, c.begin()+i+k);
        if (ok(c)) progress = true; else i += (k > 4 ? k/2 : 1);
      }
      for (size_t i = 0; i + k <= best.size() && now() - t0 < budget; i += k) {
        std::vector<uint64_t> c = best; bool nz = false;
        for (size_t j = i; j < i+k; j++) { if (c[j]) nz = true; c[j] = 0; }
        if (nz && ok(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
      if (!best[i]) continue;
      for (size_t k = 1; k <= 24 && i + 1 + k <= best.size(); k++) {
        std::vector<uint64_t> c = best; --c[i]; c.erase(c.begin()+i+1, c.begin()+i+1+k);
        if (ok(c)) { progress = true; if (i >= best.size() || !best[i]) break; k = 0; }
      }
    }
    for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && now() - t0 < budget) {
        uint64_t mid = lo + (best[i] - lo)/2;
        std::vector<uint64_t> c = best; c[i] = mid;
        std::vector<uint64_t> before = best;
        if (ok(c)) { if (less(best, before)) progress = true; else break; }
        else lo = mid + 1;
      }
    }
  }
  return best;
}

inline void writeChoices(std::ostream& o, const std::vector<uint64_t>& v) {
  o << '['; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << ']';
}

inline int mainPbt(int argc, char** argv, const char* id, const Prop& p) {
  Options& o = opts();
  std::string rlist;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i+1 < argc ? argv[++i] : ""); };
    if (a == "--seed") o.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--cases") o.cases = atol(nx().c_str());
    else if (a == "--time") o.time = atof(nx().c_str());
    else if (a == "--workers") o.workers = atoi(nx().c_str());
    else if (a == "--hang") o.hang = atof(nx().c_str());
    else if (a == "--out") o.out = nx();
    else if (a == "--thorough") o.thorough = true;
    else if (a == "--choices") o.replay = nx();        // comma separated
    else if (a == "--series") o.series = nx();
    else if (a == "--only") o.only = atol(nx().c_str());
    else if (a == "--shrink-time") o.shrinkTime = atof(nx().c_str());
  }
  if (o.workers > 64) o.workers = 64;
  double t0 = now();
  uint64_t base = mix(mix(o.seed) ^ std::hash<std::string>()(id));
  auto seedOf = [&](long idx) { return mix(base + 0x100000001b3ull*(uint64_t)idx); };

  if (!o.replay.empty()) {
    std::vector<uint64_t> ch; std::stringstream ss(o.replay); std::string tok;
    while (std::getline(ss, tok, ',')) if (!tok.empty()) ch.push_back(strtoull(tok.c_str(), 0, 10));
    std::string d; RunResult r = runForked(p, ch, &d, o.hang);
    std::cout << "{\"failed\":" << (r.failed ? "true" : "false") << ",\"key\":" << jstr(r.key)
              << ",\"msg\":" << jstr(r.msg) << ",\"desc\":" << jstr(d) << "}" << std::endl;
    return r.failed ? 1 : 0;
  }
  if (!o.series.empty()) {
    long a, b, cc; sscanf(o.series.c_str(), "%ld,%ld,%ld", &a, &b, &cc);
    RunResult r = runSeries(p, a, b, cc, seedOf, o.hang);
    std::cout << "{\"failed\":" << (r.failed ? "true" : "false") << ",\"key\":" << jstr(r.key) << ",\"msg\":" << jstr(r.msg) << "}" << std::endl;
    return r.failed ? 1 : 0;
  }
  if (o.only >= 0) {   // debugging aid: run one case index in-process
    Case c; c.rng.s = seedOf(o.only); c.idx = o.only; c.thorough = o.thorough;
    RunResult r = runInProc(p, c);
    std::cout << c.desc << "\n" << (r.failed ? "FAIL " : "ok ") << r.key << ": " << r.msg << std::endl;
    return r.failed;
  }

  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared));
  char dirt[] = "/tmp/pbt_XXXXXX"; std::string dir = mkdtemp(dirt);
  std::vector<pid_t> pids(o.workers);
  std::vector<int> gen(o.workers, 0);
  auto spawn = [&](int w, long from) {
    sh->failIdx[w] = -1; sh->done[w] = 0; sh->lenient[w] = 0;
    pids[w] = fork();
    if (pids[w] != 0) return;
    limits();
    int efd = open((dir + "/err" + std::to_string(w)).c_str(), O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0600);
    dup2(efd, 2);
    signal(SIGVTALRM, onHang);
    std::map<std::string,long> labels;
    std::vector<std::string> samples; long evals = 0, discards = 0, nontriv = 0; double maxCpu = 0, lastFlush = now();
    std::string tag = std::to_string(w) + "_" + std::to_string(gen[w]);
    FILE* hf = fopen((dir + "/hash" + tag).c_str(), "wb");
    auto flush = [&]() {
      fflush(hf);
      std::ofstream f(dir + "/res" + tag);
      f << evals << ' ' << discards << ' ' << nontriv << ' ' << maxCpu << '\n' << labels.size() << '\n';
      for (auto& l : labels) f << l.second << ' ' << l.first << '\n';
      f << samples.size() << '\n';
      for (auto& s : samples) f << s.size() << '\n' << s << '\n';
      lastFlush = now();
    };
    for (long idx = from; idx < o.cases; idx += o.workers) {
      if (sh->stop || now() - t0 > o.time) break;
      sh->curIdx[w] = idx; sh->lenient[w] = 0;
      Case c; c.rng.s = seedOf(idx); c.idx = idx; c.thorough = o.thorough; c.lenientFlag = &sh->lenient[w];
      double c0 = cpu();
      armHang(o.hang);
      RunResult r = runInProc(p, c);
      armHang(0);
      double dc = cpu() - c0; maxCpu = std::max(maxCpu, dc);
      if (getenv("PBT_SLOW") && dc > atof(getenv("PBT_SLOW"))) fprintf(stdout, "SLOW %ld %.2f\n%s\n", idx, dc, c.desc.c_str()), fflush(stdout);
      if (r.failed) {
        sh->failIdx[w] = idx;
        strncpy(sh->key[w], r.key.c_str(), 255); strncpy(sh->msg[w], r.msg.c_str(), 8191);
        sh->stop = 1; break;
      }
      if (r.discarded) ++discards; else {
        ++evals;
        if (c.isNontrivial) {
          ++nontriv;
          uint64_t h = 1469598103934665603ull;
          for (uint64_t v : c.choices) h = mix(h ^ v);
          fwrite(&h, 8, 1, hf);
          if (w == 0 && samples.size() < 6) { std::string d = c.desc; if (!d.empty()) { if (d.size() > 1200) d.resize(1200); samples.push_back(d); } }
        }
      }
      for (auto& l : c.labels) ++labels[l];
      if (now() - lastFlush > 2) flush();
    }
    flush(); fclose(hf);
    sh->done[w] = 1;
    _exit(0);
  };
  for (int w = 0; w < o.workers; w++) spawn(w, w);
  long evals = 0, discards = 0, nontriv = 0; double maxCpu = 0;
  std::map<std::string,long> labels; std::vector<std::string> samples; std::unordered_set<uint64_t> distinct;
  struct F { long idx; std::string key, msg; }; std::vector<F> fails;
  for (int left = o.workers; left > 0; left--) {
    int st; pid_t pd = waitpid(-1, &st, 0);
    int w = -1; for (int i = 0; i < o.workers; i++) if (pids[i] == pd) w = i;
    if (w < 0) { ++left; continue; }
    if (sh->done[w]) {
      if (sh->failIdx[w] >= 0) fails.push_back(F{sh->failIdx[w], sh->key[w], sh->msg[w]});
    } else {
      bool h = WIFEXITED(st) && WEXITSTATUS(st) == 43;
      if (h && sh->lenient[w]) {
        ++labels["inconclusive:cpu-limit"]; ++gen[w];
        spawn(w, sh->curIdx[w] + o.workers); ++left; continue;
      }
      fails.push_back(F{sh->curIdx[w], h ? "hang" : "crash", statusText(st) + "\n" + tailOf(dir + "/err" + std::to_string(w))});
      sh->stop = 1;
    }
  }
  for (int w = 0; w < o.workers; w++) for (int g = 0; g <= gen[w]; g++) {
    std::string tag = std::to_string(w) + "_" + std::to_string(g);
    std::ifstream f(dir + "/res" + tag); if (!f) continue;
    long e, d, n; double m; size_t k; if (!(f >> e >> d >> n >> m)) continue;
    evals += e; discards += d; nontriv += n; maxCpu = std::max(maxCpu, m);
    f >> k; for (size_t i = 0; i < k; i++) { long c; std::string l; f >> c; f.ignore(); std::getline(f, l); labels[l] += c; }
    f >> k; for (size_t i = 0; i < k; i++) { size_t n2; f >> n2; f.ignore(); std::string s(n2, ' '); f.read(&s[0], n2); samples.push_back(s); }
    FILE* hf = fopen((dir + "/hash" + tag).c_str(), "rb");
    if (hf) { uint64_t h; while (fread(&h, 8, 1, hf) == 1) distinct.insert(h); fclose(hf); }
  }
  if (system(("rm -rf '" + dir + "'").c_str())) {}
  std::ostringstream js;
  js << "{\"evaluations\":" << evals << ",\"discards\":" << discards << ",\"nontrivial\":" << nontriv
     << ",\"distinct_nontrivial\":" << distinct.size() << ",\"max_case_cpu\":" << maxCpu << ",\"labels\":{";
  bool first = true; for (auto& l : labels) { js << (first ? "" : ",") << jstr(l.first) << ':' << l.second; first = false; }
  js << "},\"samples\":["; first = true; for (auto& s : samples) { js << (first ? "" : ",") << jstr(s); first = false; }
  js << "],\"failures\":[";
  std::sort(fails.begin(), fails.end(), [](const F& a, const F& b) { return a.idx < b.idx; });
  first = true; int emitted = 0;
  for (auto& f : fails) {
    if (emitted >= 1) break;
    // regenerate the choice sequence of this case in a child; it may crash, so every choice is logged in shared memory as it is drawn
    const size_t cap = 1 << 20;
    uint64_t* log = (uint64_t*)mmap(nullptr, (cap + 1) * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid == 0) {
      limits(); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1);
      signal(SIGVTALRM, onHang); armHang(o.hang);
      Case c; c.log = log; c.logCap = cap;
      c.rng.s = seedOf(f.idx); c.idx = f.idx; c.thorough = o.thorough;
      runInProc(p, c);
      _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    std::vector<uint64_t> ch(log + 1, log + 1 + log[0]); munmap(log, (cap + 1) * 8);
    double hang = f.key == "hang" ? o.hang : o.hang;
    std::string d; RunResult r = runForked(p, ch, &d, hang);
    if (!r.failed) {
      long w = f.idx % o.workers; int n = 0; RunResult rs;
      for (int i = 0; i < 3; i++) { rs = runSeries(p, w, o.workers, f.idx, seedOf, o.hang); if (rs.failed) ++n; else break; }
      if (n == 3) {
        js << (first ? "" : ",") << "{\"flaky\":false,\"replayed\":3,\"series\":[" << w << ',' << o.workers << ',' << f.idx << "],\"idx\":" << f.idx
           << ",\"key\":" << jstr(rs.key) << ",\"msg\":" << jstr(rs.msg) << ",\"desc\":\"fails only after the earlier cases of its series\",\"choices\":[]}";
        first = false; ++emitted; continue;
      }
      js << (first ? "" : ",") << "{\"flaky\":true,\"key\":" << jstr(f.key) << ",\"msg\":" << jstr(f.msg) << ",\"idx\":" << f.idx << "}";
      first = false; continue;
    }
    std::vector<uint64_t> small = r.key == "hang" ? ch : shrink(p, ch, r.key, hang, o.shrinkTime);
    int again = 0; RunResult rr; std::string dd;
    for (int i = 0; i < 3; i++) { rr = runForked(p, small, &dd, hang); if (rr.failed) ++again; }
    if (again < 3) { small = ch; rr = runForked(p, small, &dd, hang); }
    js << (first ? "" : ",") << "{\"flaky\":false,\"replayed\":" << again << ",\"idx\":" << f.idx << ",\"key\":" << jstr(rr.key)
       << ",\"msg\":" << jstr(rr.msg) << ",\"desc\":" << jstr(dd) << ",\"choices\":";
    writeChoices(js, small); js << "}";
    first = false; ++emitted;
  }
  js << "],\"wall\":" << now() - t0 << "}";
  if (!o.out.empty()) { std::ofstream f(o.out); f << js.str(); } else std::cout << js.str() << std::endl;
  return 0;
}

}  // namespace pbt

#define PBT_MAIN(ID, FN) int main(int argc, char** argv) { return pbt::mainPbt(argc, argv, ID, FN); }
#endif
