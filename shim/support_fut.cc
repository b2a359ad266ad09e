#include <future>
#include "vp.h"
namespace vpfut {
static int seq = 0, running = 0, preempted = 0;
std::vector<std::shared_ptr<Task>>& pending() { static auto* p = new std::vector<std::shared_ptr<Task>>(); return *p; }
int& calm() { static int c = 0; return c; }
static void run_at(size_t i) {
  std::shared_ptr<Task> t = pending()[i];
  pending().erase(pending().begin() + i);
  ++running;
  t->run();
  --running;
}
void preempt(int limit) {
  if (calm() || running == 0 || preempted >= limit || pending().empty()) return;
  const int64_t k = vp_choice(vp_name("preempt", seq++), static_cast<int>(pending().size()) + 1);
  if (k == 0) return;
  ++preempted;
  run_at(static_cast<size_t>(k - 1));
}
void launched(const std::shared_ptr<Task>& t) {
  pending().push_back(t);
  if (calm() == 2) return;
  if (calm() == 1) { run_at(pending().size() - 1); return; }
  // any subset of the tasks launched so far may have run by now, in any order
  while (!pending().empty()) {
    const int64_t k = vp_choice(vp_name("sched", seq++), static_cast<int>(pending().size()) + 1);
    if (k == 0) break;
    run_at(static_cast<size_t>(k - 1));
  }
}
void need(Task* t) {
  while (!t->done) {
    if (calm()) {
      size_t i = 0;
      while (pending()[i].get() != t) ++i;
      run_at(i);
      continue;
    }
    const int64_t k = vp_choice(vp_name("sched", seq++), static_cast<int>(pending().size()));
    run_at(static_cast<size_t>(k));
  }
}
void settle(Task* t) { need(t); }
}  // namespace vpfut
