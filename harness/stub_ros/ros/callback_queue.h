// Stand-in: entries wait until somebody calls them; who calls, and when, is up to the harness.
#pragma once
#include <ros/time.h>

#include <deque>
#include <functional>
#include <vector>
// Around the stand-ins' own book-keeping, which is atomic; a harness with a scheduler defines these.
#ifndef STUB_ATOMIC
#define STUB_ATOMIC
#define STUB_POINT
#endif
namespace ros {
struct StubQueueHooks {
  std::function<void(const std::function<bool()>&, const char*)> wait;  // block until
  std::function<void(double)> available;                               // callAvailable on any queue
};
inline StubQueueHooks& stub_queue_hooks() {
  static StubQueueHooks h;
  return h;
}
class CallbackQueueInterface {
 public:
  virtual ~CallbackQueueInterface() {}
};
class CallbackQueue : public CallbackQueueInterface {
 public:
  struct Entry {
    int owner;
    std::function<void()> call;
  };
  std::deque<Entry> entries;
  std::vector<int> calling;  // owners of the entries being called
  explicit CallbackQueue(bool = true) { STUB_ATOMIC; }
  ~CallbackQueue() { clear(); }
  CallbackQueue(const CallbackQueue&) = delete;
  CallbackQueue& operator=(const CallbackQueue&) = delete;
  void clear() {
    STUB_ATOMIC;
    entries.clear();
  }
  bool isEmpty() { return entries.empty(); }
  bool empty() { return entries.empty(); }
  void add(int owner, size_t limit, const std::function<void()>& f) {
    STUB_ATOMIC;
    size_t have = 0;
    for (auto& e : entries) have += e.owner == owner;
    if (limit && have >= limit)
      for (size_t i = 0; i < entries.size(); i++)
        if (entries[i].owner == owner) {
          entries.erase(entries.begin() + (long)i);  // the oldest message is dropped
          break;
        }
    entries.push_back(Entry{owner, f});
  }
  bool busy(int owner) const {
    for (int c : calling)
      if (owner < 0 || c == owner) return true;
    return false;
  }
  void removeByID(int owner) {
    STUB_POINT;
    {
      STUB_ATOMIC;
      for (size_t i = 0; i < entries.size();)
        if (entries[i].owner == owner) entries.erase(entries.begin() + (long)i);
        else i++;
    }
    if (stub_queue_hooks().wait) stub_queue_hooks().wait([this, owner] { return !busy(owner); }, "a callback to finish");
  }
  bool take(Entry& e) {
    STUB_ATOMIC;
    if (entries.empty()) return false;
    e = entries.front();
    entries.pop_front();
    calling.push_back(e.owner);
    return true;
  }
  void finish(Entry& e) {
    STUB_ATOMIC;
    e.call = nullptr;
    for (size_t i = 0; i < calling.size(); i++)
      if (calling[i] == e.owner) {
        calling.erase(calling.begin() + (long)i);
        break;
      }
  }
  void callOne() {
    Entry e;
    if (!take(e)) return;
    e.call();
    finish(e);
  }
  void callAvailable(WallDuration timeout = WallDuration()) {
    if (stub_queue_hooks().available) stub_queue_hooks().available(timeout.s);
    const size_t n = entries.size();
    for (size_t i = 0; i < n; i++) callOne();
  }
};
}  // namespace ros
