// Stand-in for the parts of roscpp the library uses; the harness decides what the ROS master, parameter server,
// publishers and clock do.
#pragma once
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include <ros/callback_queue.h>
#include <ros/console.h>
#include <ros/spinner.h>
#include <ros/time.h>

#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cstdint>
#include <list>
#include <map>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>
namespace ros {
typedef boost::shared_ptr<void> VoidPtr;
typedef boost::shared_ptr<void const> VoidConstPtr;
typedef boost::weak_ptr<void const> VoidConstWPtr;
typedef std::map<std::string, std::string> M_string;
namespace init_options {
enum InitOption { NoSigintHandler = 1 << 0, AnonymousName = 1 << 1, NoRosout = 1 << 2 };
}
typedef init_options::InitOption InitOption;
struct StubNode {
  bool up = true;
  std::function<bool()> ok;  // replaces `up`
  std::vector<std::vector<std::string>> calls;  // init, shutdown
  std::function<bool(const std::string&, void*, const std::type_info&)> param;
};
inline StubNode& stub_node() {
  static StubNode n;
  return n;
}
inline bool ok() { return stub_node().ok ? stub_node().ok() : stub_node().up; }
inline void shutdown() {
  stub_node().up = false;
  stub_node().calls.push_back({"shutdown"});
}
inline void init(int& argc, char** argv, const std::string& name, uint32_t options = 0) {
  std::vector<std::string> c{"init", name, std::to_string(options)};
  for (int i = 0; i < argc; i++) c.push_back(argv[i]);
  stub_node().calls.push_back(c);
}
struct SubscribeOptions {
  std::string topic;
  uint32_t queue_size = 1;
  std::function<void(const VoidConstPtr&)> deliver;
  VoidConstPtr tracked_object;
  CallbackQueueInterface* callback_queue = nullptr;
  bool allow_concurrent_callbacks = false;
  template <class M>
  static SubscribeOptions create(const std::string& topic, uint32_t queue_size,
                                 const boost::function<void(const boost::shared_ptr<M const>&)>& callback,
                                 const VoidConstPtr& tracked_object, CallbackQueueInterface* queue) {
    SubscribeOptions o;
    o.topic = topic;
    o.queue_size = queue_size;
    o.tracked_object = tracked_object;
    o.callback_queue = queue;
    STUB_ATOMIC;
    o.deliver = [callback](const VoidConstPtr& m) { callback(boost::static_pointer_cast<M const>(m)); };
    return o;
  }
};
struct StubSubscription {
  int id;
  SubscribeOptions options;
  CallbackQueue* queue() const {
    return options.callback_queue ? static_cast<CallbackQueue*>(options.callback_queue) : getGlobalCallbackQueue();
  }
};
inline std::vector<std::shared_ptr<StubSubscription>>& stub_subscriptions() {
  static std::vector<std::shared_ptr<StubSubscription>> v;
  return v;
}
class Subscriber {
  struct Impl {
    std::shared_ptr<StubSubscription> s;
    explicit Impl(const std::shared_ptr<StubSubscription>& s) : s(s) {}
    ~Impl() {
      {
        STUB_ATOMIC;
        auto& v = stub_subscriptions();
        for (size_t i = 0; i < v.size(); i++)
          if (v[i] == s) {
            v.erase(v.begin() + (long)i);
            break;
          }
      }
      s->queue()->removeByID(s->id);
      STUB_ATOMIC;
      s.reset();
    }
  };
  std::shared_ptr<Impl> impl_;

 public:
  Subscriber() {}
  explicit Subscriber(const std::shared_ptr<StubSubscription>& s) : impl_(std::make_shared<Impl>(s)) {}
  void shutdown() { impl_.reset(); }
  operator void*() const { return impl_ ? (void*)1 : nullptr; }
  std::string getTopic() const { return impl_ ? impl_->s->options.topic : ""; }
};
class NodeHandle {
  std::string ns_;

 public:
  explicit NodeHandle(const std::string& ns = "") : ns_(ns) {}
  const std::string& getNamespace() const { return ns_; }
  Subscriber subscribe(SubscribeOptions& o) {
    STUB_POINT;
    STUB_ATOMIC;
    static int next = 0;
    auto s = std::make_shared<StubSubscription>();
    s->id = ++next;
    s->options = o;
    stub_subscriptions().push_back(s);
    return Subscriber(s);
  }
  template <class M, class C>
  Subscriber subscribe(const std::string& topic, uint32_t n, void (C::*f)(const boost::shared_ptr<M const>&), C* o) {
    SubscribeOptions so = SubscribeOptions::create<M>(topic, n, boost::bind(f, o, _1), VoidConstPtr(), nullptr);
    return subscribe(so);
  }
  template <class T>
  bool getParam(const std::string& name, T& to) const {
    return stub_node().param && stub_node().param(ns_ + "/" + name, &to, typeid(T));
  }
  template <class T>
  bool param(const std::string& name, T& to, const T& def) const {
    if (getParam(name, to)) return true;
    to = def;
    return false;
  }
  bool hasParam(const std::string& name) const {
    return stub_node().param && stub_node().param(ns_ + "/" + name, nullptr, typeid(void));
  }
};
// a publisher's message: delivered to the queues of everybody subscribed now
inline void stub_publish(const std::string& topic, const VoidConstPtr& m, const std::function<void(const std::function<void()>&)>& around) {
  for (auto& s : stub_subscriptions())
    if (s->options.topic == topic) {
      auto sub = s;
      s->queue()->add(s->id, s->options.queue_size, [sub, m, around] { around([sub, m] { sub->options.deliver(m); }); });
    }
}
}  // namespace ros
