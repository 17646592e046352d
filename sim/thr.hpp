// Thread simulation: real threads of which exactly one runs at any time.  Every
// memory access of the instrumented code to shared memory is a point where the
// plan may switch to another thread; accesses are checked for data races.
#ifndef VERIF_SIM_THR_HPP
#define VERIF_SIM_THR_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>

namespace sim {
struct Plan;
namespace thr {
constexpr int MAX = 8;
// Reserve the shadow memory; once, before any simulation.
void prepare();
// Run body(1), …, body(n) in n threads, scheduled by the plan.
void run(const Plan& plan, int n, const std::function<void(int)>& body);
// The index of the running thread, 0: not in a thread simulation
int running();
// The number of accesses that were counted so far.
uint64_t steps();
// A new operation begins in the running thread.
void operation();
// A block of the code under test is released.
void onFree(void* p, size_t n);
// Order everything that happened before in the sending thread before what
// happens next in the receiving thread.
void send(uintptr_t channel);
void receive(uintptr_t channel);
}  // namespace thr
// Stop the run, it does not tell anything about the property that is decided.
[[noreturn]] void stopRun();
}  // namespace sim
#endif
