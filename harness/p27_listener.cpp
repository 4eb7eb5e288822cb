// P27: every interleaving of the spinner thread, publishers, readers, stopping and destruction of the topic listener.
#include "trap.hpp"
#include "sched.hpp"

#include <climits>
#define STUB_ATOMIC sched::Quiet quiet_
#define STUB_POINT sched::yield("ros")

#include <ros/ros.h>

#include <arc_utilities/listener.hpp>

// ---- memory the listener and the messages live in: never reused within an execution
namespace {
alignas(64) char arena[1 << 18];
size_t arena_used;
std::map<void*, size_t>* live;  // blocks handed out and not given back
bool inside_api[16];
const char* memory_error;
struct Api {  // the running fiber is inside the listener's code
  int id;
  Api() : id(sched::fiber_id()) { inside_api[id] = true; }
  ~Api() { inside_api[id] = false; }
};
bool watched(const void* p) { return (const char*)p >= arena && (const char*)p < arena + sizeof arena; }
}  // namespace
void* operator new(size_t n) {
  if (live && sched::in_fiber() && inside_api[sched::fiber_id()]) {
    sched::Quiet q;
    n = (n + 63) / 64 * 64;
    if (arena_used + n > sizeof arena) throw std::bad_alloc();
    void* p = arena + arena_used;
    arena_used += n;
    (*live)[p] = n;
    return p;
  }
  if (void* p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void* p) noexcept {
  if (!watched(p)) return free(p);
  sched::Quiet q;
  auto i = live->find(p);
  if (i == live->end()) {
    memory_error = "a message or its reference count is freed twice";
    return;
  }
  memset(p, 0xDD, i->second);
  live->erase(i);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }

namespace {
const int kAlive = 0x600d;
struct Message {
  typedef boost::shared_ptr<Message const> ConstPtr;
  typedef boost::shared_ptr<Message> Ptr;
  int state = kAlive, id = 0;
  explicit Message(int id = 0) : id(id) {}
  ~Message() { state = 0; }
};

struct Op {
  long begin, end;
  int kind;   // 0: message stored, 1: read, 2: cleared, 3: nothing
  int value;  // 0: nothing
  int after;  // index of an operation that must come before this one, or -1
};
bool linearizable(const std::vector<Op>& ops, std::vector<bool>& done, size_t left, int value) {
  if (!left) return true;
  long first_end = LONG_MAX;
  for (size_t i = 0; i < ops.size(); i++)
    if (!done[i]) first_end = std::min(first_end, ops[i].end);
  for (size_t i = 0; i < ops.size(); i++) {
    const Op& o = ops[i];
    if (done[i] || o.begin > first_end || (o.after >= 0 && !done[(size_t)o.after])) continue;
    if (o.kind == 1 && o.value != value) continue;
    if (o.kind == 3) {
      done[i] = true;
      if (linearizable(ops, done, left - 1, value)) return true;
      done[i] = false;
      continue;
    }
    done[i] = true;
    if (linearizable(ops, done, left - 1, o.kind == 1 ? value : o.value)) return true;
    done[i] = false;
  }
  return false;
}

struct World {
  mc::Run& r;
  long now = 0;      // counts the beginnings and ends of operations
  long events = 0;   // things a sleeping waiter would notice
  bool up = true, finished = false;
  int publishing = 0, published = 0;
  std::vector<Op> ops;
  std::string shape;
  long seen[16] = {};
  explicit World(mc::Run& r) : r(r) {}
};
World* world;

typedef Listener<Message> L;
template <class F>
void api(F f) {
  Api a;
  f();
}
void note(const std::string& s) {
  world->r.note([s] { return mc::cat("  thread ", sched::fiber_id(), ": ", s); });
  world->shape += mc::cat(sched::fiber_id(), s, ";");
}

// One operation of a reader. Returns false if the wait was interrupted.
bool operate(L& l, char what) {
  World& w = *world;
  size_t at = 0;
  Message::ConstPtr got;
  bool thrown = false;
  std::string error;
  {
    sched::Quiet q;
    at = w.ops.size();
    w.now++;
    if (what == 'w') w.ops.push_back(Op{w.now, LONG_MAX, 2, 0, -1});
    w.ops.push_back(Op{w.now, LONG_MAX, 1, 0, what == 'w' ? (int)at : -1});
    w.seen[sched::fiber_id()] = w.events - 1;
    note(what == 'w' ? "waitForNew" : "get");
  }
  {
    Api a;
    try {
      got = what == 'w' ? l.waitForNew(8.0) : l.get();
    } catch (const std::runtime_error& e) {
      thrown = true;
      error = e.what();
    }
  }
  sched::Quiet q;
  w.now++;
  int id = 0;
  if (got) {
    if (got->state != kAlive) w.r.fail("the message returned has already been destroyed");
    id = got->id;
  }
  note(mc::cat(thrown ? "interrupted" : "got", " ", id));
  const size_t last = at + (what == 'w');
  for (size_t i = at; i <= last; i++) w.ops[i].end = w.now;
  w.ops[last].value = id;
  if (thrown) {
    if (what != 'w' || w.up) w.r.fail(mc::cat("interrupted although ROS is running: ", error));
    w.ops[last].kind = 3;  // no read
  } else if (what == 'w' && !got) {
    w.r.fail("waiting for a new message returned nothing");
  }
  {
    Api a;
    got.reset();
  }
  return !thrown;
}

struct Setup {
  std::vector<std::string> readers;  // 'g', 'w', 's'top, 'S'tart
  bool autostart = true;
  int publishers = 1, messages = 2;
  bool shutdown_any_time = false;
  bool any_order = false;  // which thread continues when one blocks is free; otherwise it costs a pre-emption
};

void explore(mc::Run& r, int preemptions, const Setup& s) {
  std::map<void*, size_t> blocks;
  World w(r);
  world = &w;
  live = &blocks;
  arena_used = 0;
  memory_error = nullptr;
  memset(inside_api, 0, sizeof inside_api);
  ros::stub_subscriptions().clear();
  ros::stub_spinners().clear();
  ros::stub_node() = ros::StubNode();
  ros::stub_node().ok = [&] {
    sched::yield("ros::ok");
    return w.up;
  };
  ros::stub_clock().sleep = [&](double t) {
    {
      sched::Quiet q;
      if (std::abs(t - 0.125) > 1e-12) r.fail(mc::cat("polls every ", t, " s instead of every 0.125 s"));
    }
    // sleeping ends by itself, but nothing changes for the sleeper before something has happened since it last woke up
    long& seen = w.seen[sched::fiber_id()];
    sched::wait_until([&w, &seen] { return w.events != seen; }, "a new message");
    seen = w.events;
  };
  ros::stub_queue_hooks().wait = [](const std::function<bool()>& f, const char* what) { sched::wait_until(f, what); };
  sched::Scope scope(r, preemptions, 1);
  sched::cfg.watch = watched;
  sched::cfg.ordered_start = !s.any_order;
  sched::cfg.access_points = !s.any_order;  // then only locks and calls into ROS are switching points
  std::vector<bool> reader_done(s.readers.size(), false);
  L* l = nullptr;
  bool stopped = !s.autostart;

  auto reader = [&](size_t k) {
    for (char c : s.readers[k]) {
      if (c == 's' || c == 'S') {
        {
          sched::Quiet q;
          if (c == 'S') stopped = false;
          note(c == 's' ? "stop" : "start");
        }
        api([&] { c == 's' ? l->stop() : l->start(); });
        sched::Quiet q;
        if (c == 's') {
          stopped = true;
          note("stopped");
        } else {
          w.events++;
        }
      } else if (!operate(*l, c)) {
        break;
      }
    }
  };
  std::vector<std::function<void()>> bodies;
  bodies.push_back([&] {  // main: constructs, reads, destroys
    ros::NodeHandle nh("ns");
    api([&] { l = new L(nh, "topic", s.autostart); });
    {
      sched::Quiet q;
      note("constructed");
      auto& subs = ros::stub_subscriptions();
      if (subs.size() != 1 || subs[0]->options.topic != "topic") r.fail("not subscribed to the topic asked for");
      w.events++;
    }
    reader(0);
    reader_done[0] = true;
    sched::wait_until([&] { return std::find(reader_done.begin(), reader_done.end(), false) == reader_done.end(); }, "readers");
    {
      sched::Quiet q;
      note("destroy");
    }
    api([&] { delete l; });
    sched::Quiet q;
    note("destroyed");
    stopped = true;
    w.finished = true;
    if (!ros::stub_subscriptions().empty()) r.fail("still subscribed after destruction");
    if (!ros::stub_spinners().empty()) r.fail("the spinner outlives the listener");
  });
  for (int i = 0; i < 1; i++)
    bodies.push_back([&] {  // the thread that calls callbacks
      while (true) {
        ros::AsyncSpinner* sp = nullptr;
        sched::wait_until(
            [&] {
              sp = nullptr;
              for (auto* x : ros::stub_spinners())
                if (x->running && !x->queue->empty() && x->threads) sp = x;
              return sp || w.finished;
            },
            "messages");
        if (!sp) return;
        ros::CallbackQueue* q = nullptr;
        ros::CallbackQueue::Entry e;
        {
          sched::Quiet quiet;
          q = sp->queue;
          q->take(e);
        }
        e.call();
        q->finish(e);
      }
    });
  for (size_t k = 1; k < s.readers.size(); k++)
    bodies.push_back([&, k] {
      sched::wait_until([&] { return l != nullptr; }, "the listener");
      reader(k);
      reader_done[k] = true;
    });
  w.publishing = s.publishers;
  for (int p = 0; p < s.publishers; p++)
    bodies.push_back([&, p] {
      sched::wait_until([&] { return w.finished || !ros::stub_subscriptions().empty(); }, "a subscriber");
      for (int i = 1; i <= s.messages; i++) {
        Message::ConstPtr m;
        api([&] { m = boost::make_shared<Message>(10 * (p + 1) + i); });
        sched::yield("publish");
        {
          sched::Quiet q;
          note(mc::cat("publish ", m->id));
          const int id = m->id;
          // called on the spinner's thread
          ros::stub_publish("topic", m, [&w, &stopped, &r, id](const std::function<void()>& call) {
            {
              sched::Quiet q;
              if (stopped) r.fail(mc::cat("message ", id, " is processed while the listener is stopped"));
              w.now++;
              w.ops.push_back(Op{w.now, LONG_MAX, 0, id, -1});
              note(mc::cat("callback ", id));
            }
            api(call);
            sched::Quiet q;
            w.now++;
            for (Op& o : w.ops)
              if (o.kind == 0 && o.value == id) o.end = w.now;
            w.events++;
            note(mc::cat("callback ", id, " done"));
          });
          w.events++;
        }
        api([&] { m.reset(); });
      }
      w.publishing--;
    });
  bodies.push_back([&] {  // ROS shuts down when nothing more is going to happen, or at any time
    if (!s.shutdown_any_time)
      sched::wait_until(
          [&] {
            if (w.publishing) return false;
            for (auto* x : ros::stub_spinners())
              if (x->running && (!x->queue->empty() || x->queue->busy(-1))) return false;
            return true;
          },
          "the end");
    else
      sched::yield("shutdown");
    sched::Quiet q;
    note("shutdown");
    w.up = false;
    w.events++;
  });
  struct Restore {
    ~Restore() {
      live = nullptr;
      world = nullptr;
      memset(inside_api, 0, sizeof inside_api);
      ros::stub_queue_hooks().wait = nullptr;
      ros::stub_clock().sleep = nullptr;
      ros::stub_node().ok = nullptr;
    }
  } restore;
  sched::run_threads(bodies);
  std::vector<std::shared_ptr<ros::StubSubscription>>().swap(ros::stub_subscriptions());
  if (memory_error) r.fail(memory_error);
  if (!blocks.empty()) r.fail(mc::cat(blocks.size(), " allocations (messages or reference counts) are never freed"));
  std::vector<bool> done(w.ops.size(), false);
  if (!linearizable(w.ops, done, w.ops.size(), 0)) {
    std::string h;
    for (auto& o : w.ops)
      h += mc::cat(o.kind == 0 ? " store " : o.kind == 1 ? " read " : " clear ", o.value, " [", o.begin, ",", o.end, "]");
    r.fail(mc::cat("no order of the operations explains what was read:", h));
  }
  r.state(w.shape);
}
}  // namespace

MC_SCENARIO(reads, "reading and waiting while messages arrive", 3) {
  Setup s;
  const std::vector<std::string> plans{"gg", "wg", "gw", "ww", "gwg"};
  s.readers = {r.pick(plans)};
  s.messages = 1 + r.choose(3, "messages");
  explore(r, r.bound(2, 3), s);
}
MC_SCENARIO(two_readers, "two readers and one or two publishers", 3) {
  Setup s;
  const std::vector<std::vector<std::string>> plans{{"gg", "gg"}, {"w", "gg"}, {"w", "w"}, {"wg", "g"}};
  s.readers = r.pick(plans);
  s.publishers = 1 + r.choose(2, "publishers");
  s.messages = s.publishers == 2 ? 1 : 2;
  explore(r, r.bound(2, 3), s);
}
MC_SCENARIO(two_waiting, "two readers, one of them waiting, continuing in any order", 3) {
  Setup s;
  const std::vector<std::vector<std::string>> plans{{"w", "w"}, {"w", "g"}, {"g", "w"}};
  s.readers = r.pick(plans);
  s.messages = 1 + r.choose(2, "messages");
  s.any_order = true;
  explore(r, r.bound(1, 2), s);
}
MC_SCENARIO(start_stop, "starting, stopping and destroying at any time", 3) {
  Setup s;
  s.autostart = r.flip("autostart");
  const std::vector<std::vector<std::string>> plans{{""}, {"s"}, {"S"}, {"gsg"}, {"sSg"}, {"gSg"}, {"sg", "g"}, {"S", "w"}, {"sS", "w"}};
  s.readers = r.pick(plans);
  explore(r, r.bound(2, 3), s);
}
MC_SCENARIO(shutdown, "ROS shuts down at any time", 3) {
  Setup s;
  const std::vector<std::string> plans{"w", "gw", "wg", "ww"};
  s.readers = {r.pick(plans)};
  s.messages = r.choose(2, "messages");
  s.shutdown_any_time = true;
  explore(r, r.bound(2, 3), s);
}
