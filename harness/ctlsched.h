// Controlled scheduler: the code under test is compiled with -fsanitize=thread but
// linked with sched_rt.cc, whose __tsan_* entry points are scheduling points.  Real
// threads run one at a time; who runs next is decided by a generated plan, sleeps and
// the clock are virtual, mutexes and joins are emulated, so a schedule is a
// deterministic, shrinkable function of the case's choices.
#pragma once
#include "pbt.h"
#include "vclock.h"
namespace sched {
struct Plan {
    int mode = 0;                       // 0 priorities + change points (PCT), 1 random walk
    std::vector<int> prio;              // initial priority of thread i (creation order), higher runs first
    std::vector<unsigned long long> change;   // steps at which the running thread drops to the lowest priority
    unsigned long long seed = 0; int walk_den = 8;
    long long tick_ns = 1000;           // virtual time per step
    std::vector<long long> late_ns;     // virtual delay before thread i (creation order) begins to run
    unsigned long long max_steps = 400000;
};
struct Range { const char* base; size_t size; };
void begin(const Plan& p, void (*on_fail)(const char*));
void end();
void watch(const void* base, size_t size);             // plain and atomic accesses inside are scheduling points
void ignore(const void* base, size_t size);            // sub-range that is not (content bytes, configuration, ...)
void unwatch_all();
bool active();
void yield();                                          // explicit scheduling point
void die_after(unsigned long long steps);              // the process dies (_exit 66) that many steps from now
extern std::atomic<long long>* writes_seen;            // counts the calls of fwrite
extern bool write_through;                             // every fwrite reaches the file at once
unsigned long long step();
unsigned long long switches();
int self();
long long vtime_us();
std::string describe();
}
