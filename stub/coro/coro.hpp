// Minimal stand-in for the parts of libcoro 0.14 the analysed headers name. libcoro is not installed in
// this environment; without these declarations the coroutine code of AlayaLite could not be type-checked.
#pragma once
#include <atomic>
#include <condition_variable>
#include <coroutine>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace coro {
template <typename T = void> class task;
namespace detail {
struct promise_base {
  std::coroutine_handle<> cont{};
  std::exception_ptr ex{};
  struct fin {
    bool await_ready() const noexcept { return false; }
    template <typename P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) noexcept {
      return h.promise().cont ? h.promise().cont : std::noop_coroutine();
    }
    void await_resume() noexcept {}
  };
  std::suspend_always initial_suspend() noexcept { return {}; }
  fin final_suspend() noexcept { return {}; }
  void unhandled_exception() noexcept { ex = std::current_exception(); }
};
template <typename T> struct promise : promise_base {
  std::optional<T> v;
  task<T> get_return_object() noexcept;
  template <typename U> void return_value(U &&u) { v.emplace(std::forward<U>(u)); }
  T result() { if (ex) std::rethrow_exception(ex); return std::move(*v); }
};
template <> struct promise<void> : promise_base {
  task<void> get_return_object() noexcept;
  void return_void() noexcept {}
  void result() { if (ex) std::rethrow_exception(ex); }
};
}  // namespace detail
template <typename T> class [[nodiscard]] task {
 public:
  using promise_type = detail::promise<T>;
  using H = std::coroutine_handle<promise_type>;
  task() noexcept = default;
  explicit task(H h) noexcept : h_(h) {}
  task(const task &) = delete;
  task(task &&o) noexcept : h_(std::exchange(o.h_, nullptr)) {}
  task &operator=(const task &) = delete;
  task &operator=(task &&o) noexcept { if (this != &o) { if (h_) h_.destroy(); h_ = std::exchange(o.h_, nullptr); } return *this; }
  ~task() { if (h_) h_.destroy(); }
  struct aw {
    H h;
    bool await_ready() const noexcept { return !h || h.done(); }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) noexcept { h.promise().cont = c; return h; }
    T await_resume() { return h.promise().result(); }
  };
  aw operator co_await() const noexcept { return aw{h_}; }
  H handle() const noexcept { return h_; }
  bool is_ready() const noexcept { return !h_ || h_.done(); }
  bool resume() { if (h_ && !h_.done()) h_.resume(); return h_ && !h_.done(); }
  promise_type &promise() { return h_.promise(); }
 private:
  H h_{};
};
namespace detail {
template <typename T> task<T> promise<T>::get_return_object() noexcept { return task<T>{std::coroutine_handle<promise<T>>::from_promise(*this)}; }
inline task<void> promise<void>::get_return_object() noexcept { return task<void>{std::coroutine_handle<promise<void>>::from_promise(*this)}; }
struct event {
  std::mutex m; std::condition_variable cv; bool set_{false};
  void set() { std::lock_guard<std::mutex> g(m); set_ = true; cv.notify_all(); }
  void wait() { std::unique_lock<std::mutex> g(m); cv.wait(g, [this] { return set_; }); }
};
struct fire {
  struct promise_type {
    fire get_return_object() noexcept { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { std::terminate(); }
  };
};
}  // namespace detail
template <typename T> T sync_wait(task<T> t) {
  detail::event ev;
  std::exception_ptr ex;
  if constexpr (std::is_void_v<T>) {
    [](task<void> &tt, detail::event &e, std::exception_ptr &x) -> detail::fire { try { co_await tt; } catch (...) { x = std::current_exception(); } e.set(); }(t, ev, ex);
    ev.wait();
    if (ex) std::rethrow_exception(ex);
  } else {
    std::optional<T> out;
    [](task<T> &tt, detail::event &e, std::exception_ptr &x, std::optional<T> &o) -> detail::fire { try { o.emplace(co_await tt); } catch (...) { x = std::current_exception(); } e.set(); }(t, ev, ex, out);
    ev.wait();
    if (ex) std::rethrow_exception(ex);
    return std::move(*out);
  }
}
namespace detail {
template <typename T> struct done_task {
  using V = std::conditional_t<std::is_void_v<T>, int, T>;
  std::exception_ptr ex; std::optional<V> v;
  decltype(auto) return_value() { if (ex) std::rethrow_exception(ex); if constexpr (!std::is_void_v<T>) return (*v); }
};
template <typename T> struct when_all_aw {
  std::vector<task<T>> ts;
  std::vector<done_task<T>> out;
  std::atomic<size_t> left{0};
  explicit when_all_aw(std::vector<task<T>> t) : ts(std::move(t)) {}
  when_all_aw(when_all_aw &&o) noexcept : ts(std::move(o.ts)), out(std::move(o.out)) {}
  bool await_ready() const noexcept { return ts.empty(); }
  void await_suspend(std::coroutine_handle<> c) {
    out.resize(ts.size());
    left.store(ts.size() + 1);
    for (size_t i = 0; i < ts.size(); ++i)
      [](when_all_aw *s, size_t k, std::coroutine_handle<> cc) -> fire {
        try {
          if constexpr (std::is_void_v<T>) co_await s->ts[k]; else s->out[k].v.emplace(co_await s->ts[k]);
        } catch (...) { s->out[k].ex = std::current_exception(); }
        if (s->left.fetch_sub(1) == 1) cc.resume();
      }(this, i, c);
    if (left.fetch_sub(1) == 1) c.resume();
  }
  std::vector<done_task<T>> await_resume() { return std::move(out); }
};
}  // namespace detail
template <typename T> auto when_all(std::vector<task<T>> ts) { return detail::when_all_aw<T>(std::move(ts)); }
template <typename T> auto sync_wait(detail::when_all_aw<T> w) {
  return sync_wait([](detail::when_all_aw<T> x) -> task<std::vector<detail::done_task<T>>> { co_return co_await x; }(std::move(w)));
}
class thread_pool {
 public:
  struct options {
    uint32_t thread_count;
    std::function<void(std::size_t)> on_thread_start_functor;
    std::function<void(std::size_t)> on_thread_stop_functor;
  };
  struct schedule_operation {
    thread_pool &p;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) { p.push(h); }
    void await_resume() const noexcept {}
  };
  thread_pool() : thread_pool(options{1, nullptr, nullptr}) {}
  explicit thread_pool(options o) { for (uint32_t i = 0; i < (o.thread_count ? o.thread_count : 1); ++i) ths_.emplace_back([this] { run(); }); }
  thread_pool(const thread_pool &) = delete;
  ~thread_pool() { shutdown(); }
  schedule_operation schedule() { return schedule_operation{*this}; }
  schedule_operation yield() { return schedule_operation{*this}; }
  bool resume(std::coroutine_handle<> h) { if (!h) return false; push(h); return true; }
  bool spawn(task<void> &&t) { auto p = std::make_shared<task<void>>(std::move(t)); push(p->handle()); keep_.push_back(p); return true; }
  std::size_t thread_count() const { return ths_.size(); }
  void shutdown() noexcept { { std::lock_guard<std::mutex> g(m_); stop_ = true; } cv_.notify_all(); for (auto &t : ths_) if (t.joinable()) t.join(); }
  void push(std::coroutine_handle<> h) { { std::lock_guard<std::mutex> g(m_); q_.push_back(h); } cv_.notify_one(); }
 private:
  void run() { for (;;) { std::coroutine_handle<> h; { std::unique_lock<std::mutex> g(m_); cv_.wait(g, [this] { return stop_ || !q_.empty(); }); if (q_.empty()) return; h = q_.front(); q_.pop_front(); } h.resume(); } }
  std::mutex m_; std::condition_variable cv_; std::deque<std::coroutine_handle<>> q_; bool stop_{false};
  std::vector<std::thread> ths_; std::vector<std::shared_ptr<task<void>>> keep_;
};
class mutex {
 public:
  struct lock_operation { mutex &m; bool await_ready() const noexcept { return false; } void await_suspend(std::coroutine_handle<> h) { h.resume(); } void await_resume() const noexcept {} };
  lock_operation lock() { return {*this}; }
  void unlock() {}
};
}  // namespace coro
