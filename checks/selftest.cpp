// The machinery tested on itself: expected verdicts are in tools/selftest.py.
#include "omc.h"
#include <atomic>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <chrono>
#include <set>
#include <omp.h>
using namespace omc;
static int plain; static std::atomic<int> at; static std::mutex mx; static std::recursive_mutex rmx; static std::shared_timed_mutex rw;
struct Init { Init() { race_detect = true; } } init_;

// ok: a counter kept with one atomic operation
HARNESS(ok_counter, 3, 3, "") { at = 0; run({[] { ++at; }, [] { ++at; }}); if (at != 2) fail("%d", (int)at); }
// violation: read and write of an atomic are two operations
HARNESS(bad_counter, 3, 3, "") { at = 0; run({[] { at = at + 1; }, [] { at = at + 1; }}); if (at != 2) fail("%d", (int)at); }
// violation: numbers taken from an atomic in two steps
HARNESS(bad_ticket, 3, 3, "") { at = 0; static int a, b; run({[] { at++; a = at; }, [] { at++; b = at; }}); if (a == b) fail("same"); }
HARNESS(bad_omp_atomic, 3, 3, "") { static int n; n = 0; static int a, b;
    auto f = [](int *r) { return [r] {
#pragma omp atomic
        n++;
#pragma omp atomic read
        *r = n; }; };
    run({f(&a), f(&b)}); if (a == b) fail("same"); }
HARNESS(ok_omp_capture, 3, 3, "") { static int n; n = 0; static int a, b;
    auto f = [](int *r) { return [r] {
#pragma omp atomic capture
        *r = ++n; }; };
    run({f(&a), f(&b)}); if (a == b) fail("same"); }
HARNESS(bad_plain, 2, 2, "") { plain = 0; run({[] { plain++; }, [] { plain++; }}); }
HARNESS(ok_mutex, 3, 3, "") { plain = 0; auto f = [] { std::lock_guard<std::mutex> g(mx); plain++; }; run({f, f}); if (plain != 2) fail("lost"); }
HARNESS(ok_recursive, 3, 3, "") { plain = 0; auto f = [] { std::lock_guard<std::recursive_mutex> g(rmx); { std::lock_guard<std::recursive_mutex> h(rmx); plain++; } plain++; }; run({f, f}); if (plain != 4) fail("lost"); }
HARNESS(bad_selflock, 3, 3, "") { auto f = [] { std::lock_guard<std::mutex> g(mx); std::lock_guard<std::mutex> h(mx); }; run({f, f}); }
HARNESS(ok_rw, 3, 3, "") { plain = 0; run({[] { std::unique_lock<std::shared_timed_mutex> g(rw); plain++; }, [] { std::shared_lock<std::shared_timed_mutex> g(rw); if (plain > 1) fail("?"); }}); }
HARNESS(bad_rw, 3, 3, "") { plain = 0; run({[] { std::unique_lock<std::shared_timed_mutex> g(rw); plain++; }, [] { plain++; }}); }
HARNESS(fresh_once, 3, 3, "") { static std::once_flag once; static int n = 0; auto f = [] { std::call_once(once, [] { n++; }); if (n != 1) fail("%d", n); }; run({f, f}); }
HARNESS(ok_spin, 3, 3, "") { static std::atomic_flag fl = ATOMIC_FLAG_INIT; plain = 0;
    auto f = [] { while (fl.test_and_set()) {} plain++; fl.clear(); }; run({f, f}); if (plain != 2) fail("lost"); }
HARNESS(ok_testlock, 3, 3, "") { static omp_lock_t l; omp_init_lock(&l); plain = 0;
    auto f = [] { while (!omp_test_lock(&l)) {} plain++; omp_unset_lock(&l); }; run({f, f}); if (plain != 2) fail("lost"); omp_destroy_lock(&l); }
HARNESS(ok_yield, 3, 3, "") { at = 0; plain = 0; run({[] { while (!at.load(std::memory_order_acquire)) std::this_thread::yield(); if (plain != 1) fail("?"); },
    [] { plain = 1; at.store(1, std::memory_order_release); }}); }
HARNESS(ok_sleep, 3, 3, "") { at = 0; plain = 0; run({[] { while (!at) std::this_thread::sleep_for(std::chrono::milliseconds(1)); if (plain != 1) fail("?"); }, [] { plain = 1; at = 1; }}); }
HARNESS(bad_relaxed, 3, 3, "") { at = 0; plain = 0; run({[] { if (at.load(std::memory_order_relaxed)) plain++; }, [] { plain = 1; at.store(1, std::memory_order_relaxed); }}); }
HARNESS(ok_acqrel, 3, 3, "") { at = 0; plain = 0; run({[] { if (at.load(std::memory_order_acquire)) plain++; }, [] { plain = 1; at.store(1, std::memory_order_release); }}); }
HARNESS(bad_deadlock, 3, 3, "") { static omp_lock_t a, b; omp_init_lock(&a); omp_init_lock(&b);
    run({[] { omp_set_lock(&a); omp_set_lock(&b); omp_unset_lock(&b); omp_unset_lock(&a); }, [] { omp_set_lock(&b); omp_set_lock(&a); omp_unset_lock(&a); omp_unset_lock(&b); }}); }
HARNESS(ok_team, 3, 3, "") { team_size = 3; run({[] { int s = 0;
#pragma omp parallel for reduction(+:s)
    for (int i = 0; i < 5; i++) s += i;
    if (s != 10) fail("%d", s); }}); team_size = 2; }
HARNESS(ok_tasks, 2, 2, "") { team_size = 2; run({[] { int a[3] = {0}, s = 0;
#pragma omp parallel
#pragma omp single
{ for (int i = 0; i < 3; i++)
#pragma omp task shared(a)
  a[i] = i + 1;
#pragma omp taskwait
  for (int i = 0; i < 3; i++) s += a[i]; }
  if (s != 6) fail("%d", s); }}); }
HARNESS(bad_tasks, 1, 1, "") { team_size = 2; run({[] { int a = 0;
#pragma omp parallel
#pragma omp single
{ for (int i = 0; i < 2; i++)
#pragma omp task shared(a)
  a += i; } }}); }
HARNESS(bad_task_early, 1, 1, "") { team_size = 2; run({[] { int a = 0;
#pragma omp parallel
#pragma omp single
{
#pragma omp task shared(a)
  a = 1;
  if (a) a = 2; } }}); }
HARNESS(ok_taskloop, 1, 1, "") { team_size = 2; run({[] { int a[5] = {0}; 
#pragma omp parallel
#pragma omp single
#pragma omp taskloop shared(a)
  for (int i = 4; i >= 0; i--) a[i] += i;
  for (int i = 0; i < 5; i++) if (a[i] != i) fail("%d", i); }}); }
HARNESS(ok_ordered, 1, 1, "") { team_size = 2; run({[] { int a = 0;
#pragma omp parallel for ordered
  for (int i = 0; i < 3; i++) {
#pragma omp ordered
  a = a * 10 + i; }
  if (a != 12) fail("%d", a); }}); }
HARNESS(ok_copyprivate, 1, 1, "") { team_size = 3; run({[] { int k, sum = 0;
#pragma omp parallel private(k) reduction(+:sum)
{
#pragma omp single copyprivate(k)
  k = 7;
  sum += k; }
  if (sum != 21) fail("%d", sum); }}); }
