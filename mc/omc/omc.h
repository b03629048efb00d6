// omc: a small stateless model checker for OpenMP/C++ code.
//
// It replaces libgomp (and, for managed threads, the pthread mutex calls) at
// link time, so that every lock operation, critical section, parallel region
// and work-sharing step of the code under test is a scheduling point that the
// explorer decides.  Exactly one managed thread runs at a time.  Executions are
// enumerated depth first; the number of preemptions (switching away from a
// thread that could have continued) is bounded, everything else is exhaustive.
//
// Data choices (choose()) share the same decision stack, so that operation
// histories, inputs and environment answers are enumerated by the same engine.
#ifndef OMC_H
#define OMC_H
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace omc {
    // ---- decisions ------------------------------------------------------
    int choose(int n, const char *label = "");   // exhaustive data choice 0..n-1
    void point(const char *label = "user");      // explicit scheduling point

    // ---- threads ---------------------------------------------------------
    void run(std::vector<std::function<void()>> bodies); // start, schedule, join
    bool managed();                              // am I a managed thread?

    // ---- verdicts ----------------------------------------------------------
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
    // like fail(), but a violation listed in the known-findings file is counted and true is returned
    bool violation(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void outcome(const std::string &s);          // observed outcome of this execution
    void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // op log
    void count(const std::string &key, long n = 1);   // extra counters for the evidence
    void sample(const std::string &s);           // sample case for the evidence

    // ---- configuration of the OpenMP runtime model -------------------------
    extern int team_size;        // size of teams without num_threads()
    extern int max_active;       // nested active levels allowed
    extern int seq_order;        // order in which a team runs outside the scheduler (0 asc, 1 desc)
    extern bool race_detect;     // check happens-before on instrumented accesses
    extern bool explore_points;  // false: deterministic scheduling (no branching)
    extern bool atomic_points;   // false: no switch at atomic operations
    extern int bound_override;   // -1: use command line
    void race_ignore(bool on);
    // the harness's own bookkeeping inside managed threads; no scheduling point may occur inside
    struct Quiet { Quiet() { race_ignore(true); } ~Quiet() { race_ignore(false); } };

    // object the code under test touches through an uninstrumented library
    void touch(const void *p, size_t n, bool write, const char *what);

    // ---- harness registration ----------------------------------------------
    struct Harness { const char *name; void (*body)(); int quick_bound; int thorough_bound; const char *doc; };
    struct Register { Register(const char *name, void (*body)(), int qb, int tb, const char *doc); };
    extern bool thorough;
    extern int bound;
    typedef long sig_count;
}
#define HARNESS(NAME, QB, TB, DOC) \
    static void NAME(); static omc::Register reg_##NAME(#NAME, NAME, QB, TB, DOC); static void NAME()
#endif
