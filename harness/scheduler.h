// A controlled scheduler for real threads running code compiled with -fsanitize=thread instrumentation but linked with
// the runtime in scheduler_rt.cc instead of the sanitizer's. One thread runs at a time; at every synchronisation operation
// (atomics, locks, once, static initialisation) on an object which several threads use, the next thread to run is a
// decision. Every memory access is checked for data races (vector clocks over the synchronisation seen) and for use
// after release.
#pragma once
#include <stdint.h>

#include <functional>
#include <string>
#include <vector>

namespace sched {
constexpr int kMaxDec = 4000;
constexpr int kMaxSync = 4000;
constexpr int kWritten = 0x80;  // in syncMask: somebody did more than read it
struct Decision {
  uint8_t chosen, n, preempts;  // preempts: choosing another than the running thread is a preemption
};
struct Shared {
  // in
  int nPrefix;
  uint8_t prefix[kMaxDec];
  int nPoints;
  uintptr_t points[kMaxSync];  // synchronisation objects at which to decide
  // out
  int status;  // 0 unfinished, 1 fine, 2 violation, 3 internal error
  int nDec;
  Decision dec[kMaxDec];
  uint64_t stateAt[kMaxDec];
  uint64_t accesses, syncs, trace;
  int nSync;
  uintptr_t sync[kMaxSync];
  uint8_t syncMask[kMaxSync];
  uintptr_t pc, pcOther;
  char msg[2500];
};
// In the process which then forks the executions: makes what they all share.
void prepare();
// In the process of one execution: starts allocation from per-thread regions whose addresses do not depend on the schedule.
void begin(Shared *s);
// Runs the bodies as threads under the schedule.
void run(const std::vector<std::function<void()>> &bodies);
// Reports a violation and ends the process.
[[noreturn]] void fail(const std::string &m);
// Suspends the checks in the calling thread (harness code).
struct Quiet {
  bool m_old;
  Quiet();
  ~Quiet();
};
}  // namespace sched
