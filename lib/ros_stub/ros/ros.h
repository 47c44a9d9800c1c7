// Stand-in for roscpp (ROS 1), used to run rtcg-generated ROS test drivers without ROS.
//
// It keeps the contract the generated code relies on: typed topics, callbacks called one at a time from
// spin(), repeating timers, and no new callback after shutdown().  Everything the node does to the outside
// world is written to the event log (fd 3 when ROS_STUB_LOG is set, else stdout) as one tab-separated
// line per event; spin() is driven by commands on stdin:
//
//   msg <topic> <value...>   deliver a message to all subscribers of topic
//   timer <seconds>          fire every timer created with that period
//   end                      stop spinning (as Ctrl-C would)
//   also <command>           this command was already in spin's queue along with the one before, so it is called even if that one
//                            shut the node down (roscpp calls the callbacks it has taken off its queue whatever happens meanwhile)
//
// As in roscpp, a subscription or timer lasts as long as its last handle does, and a subscription whose queue is full
// drops its oldest message.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <cstdint>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <vector>

namespace ros_stub {
inline std::string esc(const std::string &s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '\\' || c < 0x20 || c == 0x7f) { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}
inline void event(const std::string &kind, const std::string &a = "", const std::string &b = "", const std::string &c = "") {
  std::cout << "@" << kind << "\t" << esc(a) << "\t" << esc(b) << "\t" << esc(c) << std::endl;
}
struct Sub {
  std::string topic, type;
  std::function<void(const std::string &)> deliver;
  unsigned queue;
  std::weak_ptr<int> handle;
};
struct Tim {
  double period;
  std::function<void()> fire;
  bool oneshot;
  std::weak_ptr<int> handle;
};
struct Core {
  bool inited = false, ok = true;
  int depth = 0;
  std::string name;
  std::vector<Sub> subs;
  std::vector<Tim> timers;
  int nodes = 0;
};
inline Core &core() { static Core c; return c; }
template <class M> struct Codec;  // specialised by each message header
} // namespace ros_stub

namespace ros {
struct TimerEvent {};
typedef TimerEvent WallTimerEvent;
struct Duration {
  double s;
  explicit Duration(double x = 0) : s(x) {}
  double toSec() const { return s; }
  bool sleep() const { return true; }
};
typedef Duration WallDuration;
struct TransportHints {
  TransportHints &tcpNoDelay(bool = true) { return *this; }
  TransportHints &reliable() { return *this; }
};
typedef std::map<std::string, std::string> M_string;
namespace init_options { enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
inline void init(int &, char **, const std::string &name, uint32_t = 0) {
  ros_stub::core().inited = true; ros_stub::core().name = name;
  ros_stub::event("init", name);
}
inline bool ok() { return ros_stub::core().ok; }
inline bool isInitialized() { return ros_stub::core().inited; }
inline bool isStarted() { return ros_stub::core().nodes != 0; }
inline bool isShuttingDown() { return !ros_stub::core().ok; }
inline void start() {}
inline void shutdown() {
  if (!ros_stub::core().ok) return;
  ros_stub::core().ok = false; ros_stub::event("shutdown");
}
class Publisher {
public:
  std::string topic, type;
  template <class M> void publish(const M &m) const {
    typedef ros_stub::Codec<typename std::remove_cv<M>::type> C;
    if (type.empty()) { ros_stub::event("bad", "publish on an invalid publisher"); std::abort(); }
    if (type != C::name()) { ros_stub::event("bad", "publish type mismatch", type, C::name()); std::abort(); }
    ros_stub::event("publish", topic, C::name(), C::show(m));
  }
  template <class M> void publish(const std::shared_ptr<M> &m) const { publish(*m); }
  void shutdown() { type.clear(); }
  std::string getTopic() const { return topic; }
  uint32_t getNumSubscribers() const { return 1; }
  explicit operator bool() const { return !type.empty(); }
};
class Subscriber {
  std::shared_ptr<int> handle;
public:
  Subscriber() {}
  explicit Subscriber(std::shared_ptr<int> h) : handle(h) {}
  void shutdown() { handle.reset(); }
  uint32_t getNumPublishers() const { return 1; }
  explicit operator bool() const { return static_cast<bool>(handle); }
};
class Timer {
  std::shared_ptr<int> handle;
public:
  Timer() {}
  explicit Timer(std::shared_ptr<int> h) : handle(h) {}
  void stop() { if (handle) *handle = 0; }
  void start() { if (handle) *handle = 1; }
  bool isValid() const { return static_cast<bool>(handle); }
};
typedef Timer WallTimer;
class NodeHandle {
  template <class M> Subscriber add(const std::string &topic, unsigned queue, std::function<void(const std::shared_ptr<M> &)> fn) {
    ros_stub::Sub s; s.topic = topic; s.type = ros_stub::Codec<M>::name();
    s.deliver = [fn](const std::string &text) {
      auto m = std::make_shared<M>();
      ros_stub::Codec<M>::parse(text, *m);
      fn(m);
    };
    auto h = std::make_shared<int>(1);
    s.queue = queue; s.handle = h;
    ros_stub::event("subscribe", topic, s.type, std::to_string(queue));
    ros_stub::core().subs.push_back(s);
    return Subscriber(h);
  }
  // What a callback's parameter says about the message: const shared_ptr<const M> &, shared_ptr<const M>, const M & or M.
  template <class P> struct Arg {
    typedef P M;
    static const P &of(const std::shared_ptr<P> &m) { return *m; }
  };
  template <class X> struct Arg<std::shared_ptr<X>> {
    typedef typename std::remove_const<X>::type M;
    static std::shared_ptr<X> of(const std::shared_ptr<M> &m) { return m; }
  };
  template <class P> struct Par : Arg<typename std::remove_cv<typename std::remove_reference<P>::type>::type> {};
public:
  NodeHandle() {
    if (!ros_stub::core().inited) { ros_stub::event("bad", "NodeHandle before init"); std::abort(); }
    ros_stub::core().nodes++;
  }
  NodeHandle(const NodeHandle &) { ros_stub::core().nodes++; }
  ~NodeHandle() { if (--ros_stub::core().nodes == 0) ros_stub::core().ok = false; }  // the last node handle takes the node with it
  template <class M> Publisher advertise(const std::string &topic, unsigned queue, bool latch = false) {
    Publisher p; p.topic = topic; p.type = ros_stub::Codec<M>::name();
    ros_stub::event("advertise", topic, p.type, std::to_string(queue));
    if (latch) ros_stub::event("latch", topic);  // will be sent again to each later subscriber
    return p;
  }
  explicit NodeHandle(const std::string &) : NodeHandle() {}
  bool ok() const { return ros_stub::core().ok; }
  void shutdown() { ros_stub::core().ok = false; }
  template <class M, class T> Subscriber subscribe(const std::string &topic, unsigned queue, void (T::*fn)(const std::shared_ptr<M const> &), T *obj, const TransportHints & = TransportHints()) {
    return add<M>(topic, queue, [fn, obj](const std::shared_ptr<M> &m) { (obj->*fn)(m); });
  }
  template <class P, class T> Subscriber subscribe(const std::string &topic, unsigned queue, void (T::*fn)(P), T *obj, const TransportHints & = TransportHints()) {
    typedef typename Par<P>::M M;
    return add<M>(topic, queue, [fn, obj](const std::shared_ptr<M> &m) { (obj->*fn)(Par<P>::of(m)); });
  }
  template <class P> Subscriber subscribe(const std::string &topic, unsigned queue, void (*fn)(P), const TransportHints & = TransportHints()) {
    typedef typename Par<P>::M M;
    return add<M>(topic, queue, [fn](const std::shared_ptr<M> &m) { fn(Par<P>::of(m)); });
  }
  template <class X, class F> Subscriber subscribe(const std::string &topic, unsigned queue, F fn, const TransportHints & = TransportHints()) {
    typedef typename Par<X>::M M;  // subscribe<M>(topic, queue, something callable with a pointer to M)
    std::function<void(const std::shared_ptr<const M> &)> f = fn;
    return add<M>(topic, queue, [f](const std::shared_ptr<M> &m) { f(m); });
  }
  Timer createTimer(Duration d, std::function<void(const TimerEvent &)> fn, bool oneshot = false, bool autostart = true) {
    ros_stub::Tim t; t.period = d.s; t.oneshot = oneshot;
    auto h = std::make_shared<int>(autostart ? 1 : 0);
    t.handle = h;
    t.fire = [fn]() { TimerEvent e; fn(e); };
    std::ostringstream o; o << d.s;
    ros_stub::event("timer", o.str());
    ros_stub::core().timers.push_back(t);
    return Timer(h);
  }
  template <class T, class E> Timer createTimer(Duration d, void (T::*fn)(E), T *obj, bool oneshot = false, bool autostart = true) {
    return createTimer(d, [fn, obj](const TimerEvent &e) { (obj->*fn)(e); }, oneshot, autostart);
  }
  template <class T, class E> WallTimer createWallTimer(WallDuration d, void (T::*fn)(E), T *obj, bool oneshot = false, bool autostart = true) {
    return createTimer(d, fn, obj, oneshot, autostart);
  }
};
// Calls what is queued; false once there won't be any more.
inline bool step_() {
  ros_stub::Core &c = ros_stub::core();
  static bool begun = false, over = false, have = false;
  static std::string line;
  if (over) return false;
  if (!begun) {
    begun = true;
    ros_stub::event("spin");
    have = static_cast<bool>(std::getline(std::cin, line));
  }
  struct Cmd { std::string line, verb, topic, val; std::vector<size_t> lost; };
  bool stop = false;
  if (have && c.ok) {
    // Everything that is in the queue together:
    std::vector<Cmd> batch;
    do {
      Cmd m;
      m.line = line.compare(0, 5, "also ") == 0 ? line.substr(5) : line;
      std::string rest;
      size_t sp = m.line.find(' ');
      m.verb = m.line.substr(0, sp);
      if (sp != std::string::npos) rest = m.line.substr(sp + 1);
      size_t q = rest.find(' ');
      m.topic = rest.substr(0, q);
      m.val = q == std::string::npos ? "" : rest.substr(q + 1);
      batch.push_back(m);
      have = static_cast<bool>(std::getline(std::cin, line));
    } while (have && line.compare(0, 5, "also ") == 0);
    for (size_t i = 0; i < c.subs.size(); i++) {
      unsigned room = c.subs[i].queue;
      if (room == 0) continue;
      for (size_t k = batch.size(); k-- > 0;)
        if (batch[k].verb == "msg" && batch[k].topic == c.subs[i].topic) {
          if (room == 0) batch[k].lost.push_back(i);
          else room--;
        }
    }
    for (size_t k = 0; k < batch.size() && !stop; k++) {
      const Cmd &m = batch[k];
      bool also = k != 0;
      ros_stub::event("command", m.line);
      if (m.verb == "end") stop = true;
      if (m.verb == "msg") {
        int hit = 0;
        for (size_t i = 0; i < c.subs.size() && (c.ok || also); i++) {
          bool lost = false;
          for (size_t x : m.lost) lost = lost || x == i;
          if (c.subs[i].topic == m.topic && !lost && !c.subs[i].handle.expired()) { hit++; c.subs[i].deliver(m.val); }
        }
        ros_stub::event("delivered", m.topic, std::to_string(hit));
      } else if (m.verb == "timer") {
        double p = std::atof(m.topic.c_str());
        int hit = 0;
        for (size_t i = 0; i < c.timers.size() && (c.ok || also); i++) {
          auto h = c.timers[i].handle.lock();
          if (c.timers[i].period == p && h && *h) {
            if (c.timers[i].oneshot) *h = 0;
            hit++;
            c.timers[i].fire();
          }
        }
        ros_stub::event("fired", m.topic, std::to_string(hit));
      }
    }
  }
  over = stop || !have || !c.ok;
  if (over) ros_stub::event("unspin");
  return !over;
}
inline void spin() { while (step_()) {} }
inline void spinOnce() { if (!step_()) ros_stub::core().ok = false; }
inline void requestShutdown() { shutdown(); }
inline void waitForShutdown() { spin(); }
struct Rate { explicit Rate(double) {} explicit Rate(Duration) {} bool sleep() { return true; } };
struct SingleThreadedSpinner { void spin() { ros::spin(); } };
inline void spin(SingleThreadedSpinner &s) { s.spin(); }
} // namespace ros

#define ROS_STUB_LOG_(lvl, args) do { std::ostringstream ros_stub_o_; ros_stub_o_ << args; std::cout.flush(); std::cerr << "[" lvl "] " << ros_stub_o_.str() << std::flush; } while (0)
#define ROS_DEBUG_STREAM(args) ROS_STUB_LOG_("debug", args)
#define ROS_DEBUG_STREAM_NAMED(name, args) ROS_STUB_LOG_("debug", args)
#define ROS_DEBUG_STREAM_COND(cond, args) do { if (cond) ROS_STUB_LOG_("debug", args); } while (0)
#define ROS_DEBUG(...) do { char ros_stub_b_[4096]; std::snprintf(ros_stub_b_, sizeof ros_stub_b_, __VA_ARGS__); ROS_STUB_LOG_("debug", ros_stub_b_ << "\n"); } while (0)
#define ROS_INFO_STREAM(args) ROS_STUB_LOG_("info", args)
#define ROS_INFO_STREAM_NAMED(name, args) ROS_STUB_LOG_("info", args)
#define ROS_INFO_STREAM_COND(cond, args) do { if (cond) ROS_STUB_LOG_("info", args); } while (0)
#define ROS_INFO(...) do { char ros_stub_b_[4096]; std::snprintf(ros_stub_b_, sizeof ros_stub_b_, __VA_ARGS__); ROS_STUB_LOG_("info", ros_stub_b_ << "\n"); } while (0)
#define ROS_WARN_STREAM(args) ROS_STUB_LOG_("warn", args)
#define ROS_WARN_STREAM_NAMED(name, args) ROS_STUB_LOG_("warn", args)
#define ROS_WARN_STREAM_COND(cond, args) do { if (cond) ROS_STUB_LOG_("warn", args); } while (0)
#define ROS_WARN(...) do { char ros_stub_b_[4096]; std::snprintf(ros_stub_b_, sizeof ros_stub_b_, __VA_ARGS__); ROS_STUB_LOG_("warn", ros_stub_b_ << "\n"); } while (0)
#define ROS_ERROR_STREAM(args) ROS_STUB_LOG_("error", args)
#define ROS_ERROR_STREAM_NAMED(name, args) ROS_STUB_LOG_("error", args)
#define ROS_ERROR_STREAM_COND(cond, args) do { if (cond) ROS_STUB_LOG_("error", args); } while (0)
#define ROS_ERROR(...) do { char ros_stub_b_[4096]; std::snprintf(ros_stub_b_, sizeof ros_stub_b_, __VA_ARGS__); ROS_STUB_LOG_("error", ros_stub_b_ << "\n"); } while (0)
#define ROS_FATAL_STREAM(args) ROS_STUB_LOG_("fatal", args)
#define ROS_FATAL_STREAM_NAMED(name, args) ROS_STUB_LOG_("fatal", args)
#define ROS_FATAL_STREAM_COND(cond, args) do { if (cond) ROS_STUB_LOG_("fatal", args); } while (0)
#define ROS_FATAL(...) do { char ros_stub_b_[4096]; std::snprintf(ros_stub_b_, sizeof ros_stub_b_, __VA_ARGS__); ROS_STUB_LOG_("fatal", ros_stub_b_ << "\n"); } while (0)
