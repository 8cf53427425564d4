// timer: histories of start / cont / stop against a model of elapsed time
#include "pbt.h"
#include <cmath>
#include <sys/times.h>
#include <sys/syscall.h>
#include "util/timer.h"
#include "util/allocator.h"
using pbt::Case; using GInv::Timer;
// the process clock is ours: virtual when a case asks for it
static bool virt = false; static long asked = 0; static long vReal, vUser, vSys;
static clock_t realTimes(tms* b) { return (clock_t)syscall(SYS_times, b); }
extern "C" clock_t times(tms* b) noexcept { ++asked; if (!virt) return realTimes(b); b->tms_utime = vUser; b->tms_stime = vSys; b->tms_cutime = vUser * 3 + 11; b->tms_cstime = vSys * 5 + 7; return vReal; }
struct Iv { double lo = 0, hi = 0; Iv operator+(Iv o) const { return {lo + o.lo, hi + o.hi}; } Iv operator-(Iv o) const { return {lo - o.hi, hi - o.lo}; } };
struct Now { Iv t[3]; };
struct Model { Iv el[3]; Now ref; bool running = false; };
static const char* names[] = {"real", "user", "system"};
static void now(double hz, double* r) { tms b; double t; if (virt) { r[0] = vReal / hz; r[1] = vUser / hz; r[2] = vSys / hz; return; } t = realTimes(&b); r[0] = t / hz; r[1] = b.tms_utime / hz; r[2] = b.tms_stime / hz; }
static void prop(Case& c) {
  double hz = sysconf(_SC_CLK_TCK); pbt::CerrCapture cap;
  { virt = true; vReal = vUser = vSys = 100; long a0 = asked; Timer t; t.start(); virt = asked > a0; }
  bool sim = virt && !c.chance(1, 400); virt = sim; c.label(sim ? "virtual clock" : "real clock");
  int k = c.in(1, 3), ops = sim ? c.in(1, 40) : c.in(3, 8); std::vector<Timer> T(k); std::vector<Model> M(k); int stops = 0, resumed = 0; bool advanced = false;
  if (sim) { vReal = c.draw(1ul << 40); vUser = c.draw(1 << 30); vSys = c.draw(1 << 30); }
  for (int q = 0; q < ops; q++) {
    int i = c.draw(k); std::string d = "t" + std::to_string(i); Now n; double a[3], b[3]; int what = c.weighted({3, 3, 4, 6});
    if (what == 3) {
      if (sim) { int m = c.in(0, 7), s = c.chance(1, 5) ? 1000000 : 50; if (m & 1) vReal += c.in(0, s); if (m & 2) vUser += c.in(0, s); if (m & 4) vSys += c.in(0, s); d = "clock " + std::to_string(vReal) + " " + std::to_string(vUser) + " " + std::to_string(vSys); }
      else { int ms = c.in(10, 60); d = "burn " + std::to_string(ms) + " ms"; double e = pbt::now() + ms / 1000.0; if (c.coin()) while (pbt::now() < e) ; else usleep(ms * 1000); }
      advanced = true; c.note(d + "\n"); continue;
    }
    if (what == 2 && !M[i].running) continue;
    d += what == 0 ? ".start" : what == 1 ? ".cont" : ".stop"; c.note(d + "\n");
    now(hz, a); if (what == 0) T[i].start(); else if (what == 1) T[i].cont(); else T[i].stop(); now(hz, b);
    for (int z = 0; z < 3; z++) { n.t[z] = {a[z], b[z]};
      if (what == 0) M[i].el[z] = Iv(); if (what == 2) M[i].el[z] = M[i].el[z] + (n.t[z] - M[i].ref.t[z]); M[i].ref.t[z] = n.t[z]; }
    M[i].running = true; if (what == 2) ++stops; if (what == 1) ++resumed;
    for (int h = 0; h < k; h++) {
      double v[3] = {T[h].realTime(), T[h].userTime(), T[h].sysTime()};
      for (int z = 0; z < 3; z++) if (!(v[z] >= M[h].el[z].lo - 1e-4 && v[z] <= M[h].el[z].hi + 1e-4)) c.fail("elapsed", "after " + d + ": t" + std::to_string(h) + " " + names[z] + " time " + std::to_string(v[z]) + ", expected " + std::to_string(M[h].el[z].lo) + " to " + std::to_string(M[h].el[z].hi));
      std::ostringstream o; o.precision(9); auto fl = o.flags(); o << T[h]; char buf[400]; snprintf(buf, sizeof buf, "  real time: %.2f sec\n  user time: %.2f sec\nsystem time: %.2f sec\n", v[0], v[1], v[2]);
      if (o.str() != buf) c.fail("print", "printed as\n" + o.str() + "expected\n" + buf);
      if (o.flags() != fl || o.precision() != 9) c.fail("format", "printing a timer changes how the stream prints numbers");
    }
  }
  virt = false;
  if (stops >= 2 && advanced) c.nontrivial(); if (resumed && stops) c.label("accumulating");
}
PBT_MAIN("C27", prop)
