#pragma once
#include <ros/callback_queue.h>

#include <set>
namespace ros {
class AsyncSpinner;
inline std::set<AsyncSpinner*>& stub_spinners() {
  static std::set<AsyncSpinner*> s;
  return s;
}
inline CallbackQueue* getGlobalCallbackQueue() {
  static CallbackQueue q;
  return &q;
}
class AsyncSpinner {
 public:
  CallbackQueue* queue;
  unsigned threads;
  bool running = false;
  explicit AsyncSpinner(unsigned threads, CallbackQueue* q = nullptr)
      : queue(q ? q : getGlobalCallbackQueue()), threads(threads) {
    STUB_ATOMIC;
    stub_spinners().insert(this);
  }
  ~AsyncSpinner() {
    stop();
    STUB_ATOMIC;
    stub_spinners().erase(this);
  }
  AsyncSpinner(const AsyncSpinner&) = delete;
  bool canStart() { return !running; }
  void start() {
    STUB_POINT;
    STUB_ATOMIC;
    running = true;
  }
  void stop() {
    STUB_POINT;
    CallbackQueue* q = queue;
    {
      STUB_ATOMIC;
      running = false;
    }
    if (stub_queue_hooks().wait) stub_queue_hooks().wait([q] { return !q->busy(-1); }, "the spinner's threads to finish");
  }
};
}  // namespace ros
