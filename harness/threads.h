// Threads as schedulable jobs: a started thread runs at its start, when it is
// joined, or - nested - whenever another thread is about to take a lock.
#pragma once
#include "bs.h"
#include <map>
#include <memory>
#include <thread>
#include <vector>
static std::map<unsigned long, std::unique_ptr<std::thread::_State>> thrPending;
static unsigned long thrNext = 0;
static int thrBudget = 0;   // preemptions still to be chosen
static bool thrPreempt = false, thrLocked = false;
static int thrDepth = 0;
static void thrRun(unsigned long id)
{
  auto it = thrPending.find(id);
  if (it == thrPending.end()) return;
  auto st = std::move(it->second);
  thrPending.erase(it);
  thrDepth++;
  st->_M_run();
  thrDepth--;
}
extern "C"
{
  unsigned thr_hc() { return 2; }
  void thr_start(std::thread *t, std::unique_ptr<std::thread::_State> &st, void (*)())
  {
    unsigned long id = ++thrNext;
    t->_M_id._M_thread = (std::thread::native_handle_type)id;
    thrPending[id]     = std::move(st);
    if (bs_choice("run_at_start", 2)) thrRun(id);
  }
  void thr_join(std::thread *t)
  {
    unsigned long id = (unsigned long)t->_M_id._M_thread;
    bs_check(id != 0, "only a running thread is joined");
    // another thread may still run first
    while (!thrPending.empty() && thrPending.count(id) && thrPending.size() > 1 && thrBudget > 0)
    {
      thrBudget--;
      unsigned long other = 0;
      for (auto &p : thrPending)
        if (p.first != id) other = p.first;
      if (bs_choice("other_first", 2))
        thrRun(other);
      else
        break;
    }
    thrRun(id);
    t->_M_id = std::thread::id();
  }
  int thr_lock(void *)
  {
    if (thrPreempt && thrBudget > 0 && !thrPending.empty())
    {
      thrBudget--;
      if (bs_choice("preempt", 2)) thrRun(thrPending.begin()->first);
    }
    bs_check(!thrLocked, "no deadlock");
    thrLocked = true;
    return 0;
  }
  int thr_unlock(void *)
  {
    thrLocked = false;
    return 0;
  }
}
