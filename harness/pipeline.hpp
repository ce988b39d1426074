// Pipelines whose stages are scripted at run time and report every call.
#pragma once
#include "common.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <boost/hana.hpp>
#include <deque>
#include <memory>
namespace hana = boost::hana;
using namespace vh;

struct Run {
  int id; J op;
  std::map<int, unsigned> used;            // stage -> outcomes consumed
  std::function<void(J const&)> pending;   // settles the deferred stage
  J then;                                  // how it will be settled
  std::vector<int> live, made;             // per stage: captured objects / lazily made objects
  std::vector<bool> has;                   // does the stage capture
};
inline std::map<int, std::unique_ptr<Run>> runs;
inline std::function<void(J const&)> run_op;

// what a stage captures; a moved-from one counts as gone
struct Cap {
  Run* r; int i; std::unique_ptr<int> mark;
  void in() { if (r) { r->live[i]++; r->has[i] = true; mark = std::make_unique<int>(i); } }
  void out() { if (r) { if (*mark != i) ::_exit(9); r->live[i]--; } r = nullptr; }
  Cap(Run* r_, int i_) : r(r_), i(i_) { in(); }
  Cap(Cap const& o) : r(o.r), i(o.i) { in(); }
  Cap(Cap&& o) noexcept : r(o.r), i(o.i), mark(std::move(o.mark)) { o.r = nullptr; }
  Cap& operator=(Cap const&) = delete;
  ~Cap() { out(); }
};

struct Tok {
  int v; std::string pad;
  explicit Tok(int x) : v(x), pad(std::string(40, 'p') + std::to_string(x)) { }
  Tok(Tok const&) = default;
  Tok(Tok&& o) noexcept : v(o.v), pad(std::move(o.pad)) { o.v = -1; }
  Tok& operator=(Tok const&) = default;
};
struct Held { int v; Cap cap; };
struct Lazy {
  int v; Cap cap; Run* r; int i;
  template <typename Resolver>
  Lazy(Run* r_, int i_, int x, Resolver& resolver, Cap const& c) : v(x), cap(c), r(r_), i(i_) {
    r->made[i]++;
    r->live[i]--;   // counted in `made`
    r->then = obj(); r->then["how"] = "resolve"; r->then["n"] = 1; r->then["e"] = "";
    r->pending = [this, &resolver](J const& o) { if (v % 2) resolver.resolve(*this); else resolver(*this); };
  }
  Lazy(Lazy const&) = delete;
  ~Lazy() { r->made[i]--; r->live[i]++; }
};
inline int tok(Tok const& t) { return t.pad == std::string(40, 'p') + std::to_string(t.v) ? t.v : -2; }
inline int tok(Held const& t) { return t.v; }
inline int tok(Lazy const& t) { return t.v; }
struct E0 { int v; std::string name = "E0"; };
struct E1 { int v; std::string name = "E1"; E1(int x, std::string n = "E1") : v(x), name(n) { } };
struct E2 : E1 { E2(int x) : E1(x, "E2") { } };

inline int mix(int base, int i, int k) { return (base * 31 + i * 7 + k) % 10007; }
template <typename ...A> J toks(A const&... a) { J j = arr(); (j.append(tok(a)), ...); return j; }
inline int base_of(J const& a) { return a.empty() ? 1 : a[0].asInt(); }
inline bool alive(Run& r) {
  for (size_t i = 0; i < r.has.size(); i++) if (r.has[i] && r.live[i] < 1) return false;
  return true;
}
inline J outcome(Run& r, int i, char const* otherwise) {
  J const& l = static_cast<J const&>(r.op)["script"][std::to_string(i)];
  unsigned& n = r.used[i];
  if (n < l.size()) return l[n++];
  J o = obj(); o["how"] = otherwise; o["n"] = otherwise[0] == 'r' ? 1 : 0; o["e"] = ""; return o;
}
// what a stage is given to keep it takes away, as functions with by-value parameters do
template <typename A> void consume1(A&& a) {
  if constexpr (std::is_same_v<A, Tok>) { Tok gone(std::move(a)); }
  else (void) a;
}
template <typename ...A> void consume(A&&... a) { (consume1(std::forward<A>(a)), ...); }
inline void emit_out(char const* name, Run& r, J const& o) {
  J e = ev(name); e["run"] = r.id; e["how"] = o["how"]; e["n"] = o["n"]; e["e"] = o["e"]; emit(e);
}
template <typename ...A> J enter(Run& r, int i, A const&... a) {
  J t = toks(a...);
  J e = ev("stage"); e["run"] = r.id; e["i"] = i; e["args"] = t; e["alive"] = alive(r); emit(e);
  return t;
}
inline void pre(J const& o) { for (auto const& p : o["pre"]) run_op(p); }

template <int mask, typename Resolver>
void settle(Run& r, int i, int base, Resolver& resolver, J const& o) {
  auto how = o["how"].asString();
  int x1 = mix(base, i, 1), x2 = mix(base, i, 2), x9 = mix(base, i, 9);
  if (how == "resolve") {
    int n = o["n"].asInt();
    if (n == 0) resolver.resolve();
    else if (n == 1) { if (base % 2) resolver.resolve(Tok(x1)); else resolver(Tok(x1)); }
    else { Tok t(x1); resolver.resolve(t, Tok(x2)); }
  }
  else if (how == "terminate") resolver.terminate();
  else if (how == "defer")
    r.then = o["then"],
    r.pending = [&r, i, base, &resolver](J const& o2) { settle<mask>(r, i, base, resolver, o2); };
  else if (how == "reject") {
    auto e = o["e"].asString();
    if constexpr (mask & 1) if (e == "E0") { resolver.reject(E0{x9}); return; }
    if constexpr (mask & 2) if (e == "E1") { resolver.reject(E1{x9}); return; }
    if constexpr (mask & 4) if (e == "E2") { E2 x{x9}; resolver.reject(x); return; }
    if constexpr (mask & 8) if (e == "pair") { resolver.reject(E0{x9}, 5); return; }
    ::_exit(10);
  }
  else ::_exit(11);
}
template <int mask> auto st_promise(Run& r, int i) {
  return nbdl::promise([c = Cap(&r, i)](auto& resolver, auto&&... a) {
    Run& r = *c.r; int i = c.i;
    J t = enter(r, i, a...);
    consume(std::forward<decltype(a)>(a)...);
    J o = outcome(r, i, "terminate");
    pre(o);
    emit_out("act", r, o);
    settle<mask>(r, i, base_of(t), resolver, o);
  });
}
inline auto st_fn(Run& r, int i) {
  return [c = Cap(&r, i)](auto&&... a) { J t = enter(*c.r, c.i, a...); consume(std::forward<decltype(a)>(a)...); return Tok(mix(base_of(t), c.i, 1)); };
}
inline auto st_void(Run& r, int i) {
  return [c = Cap(&r, i)](auto&&... a) -> void { enter(*c.r, c.i, a...); consume(std::forward<decltype(a)>(a)...); };
}
inline auto st_tap(Run& r, int i) {
  return nbdl::tap([c = Cap(&r, i)](auto&&... a) { enter(*c.r, c.i, a...); consume(std::forward<decltype(a)>(a)...); });
}
struct RefFn {
  Run* r; int i;
  template <typename ...A> Tok operator()(A&&... a) { J t = enter(*r, i, a...); consume(std::forward<A>(a)...); return Tok(mix(base_of(t), i, 1)); }
};
inline std::deque<RefFn> refs;
inline auto st_ref(Run& r, int i) { refs.push_back({&r, i}); return std::ref(refs.back()); }
inline auto st_try(Run& r, int i) {
  return nbdl::try_([c = Cap(&r, i)](auto&&... a) -> Tok {
    J t = enter(*c.r, c.i, a...);
    consume(std::forward<decltype(a)>(a)...);
    J o = outcome(*c.r, c.i, "resolve");
    pre(o);
    emit_out("act", *c.r, o);
    auto how = o["how"].asString();
    if (how == "throw") throw std::runtime_error(std::to_string(mix(base_of(t), c.i, 9)));
    if (how == "throwx") throw 42;
    return Tok(mix(base_of(t), c.i, 1));
  });
}
inline auto st_hold(Run& r, int i) { return nbdl::hold(Held{5000 + i, Cap(&r, i)}); }
inline auto st_lazy(Run& r, int i) {
  return nbdl::hold_lazy([c = Cap(&r, i)](auto& resolver, auto&&... a) {
    J t = enter(*c.r, c.i, a...);
    return Lazy(c.r, c.i, mix(base_of(t), c.i, 1), resolver, c);
  });
}
inline void handler(Cap const& c, std::string const& err, int t) {
  J e = ev("handler"); e["run"] = c.r->id; e["i"] = c.i; e["err"] = err; e["tok"] = t; e["alive"] = alive(*c.r); emit(e);
}
inline int exc_tok(std::exception const& e) {
  std::string w = e.what();
  return !w.empty() && isdigit(w[0]) ? std::stoi(w) : 0;
}
inline auto h_E0(Run& r, int i) { return [c = Cap(&r, i)](E0 const& e) { handler(c, e.name, e.v); }; }
inline auto h_E1(Run& r, int i) { return [c = Cap(&r, i)](E1 const& e) { handler(c, e.name, e.v); }; }
inline auto h_E2(Run& r, int i) { return [c = Cap(&r, i)](E2 const& e) { handler(c, e.name, e.v); }; }
inline auto h_pair(Run& r, int i) { return [c = Cap(&r, i)](E0 const& e, int x) { handler(c, x == 5 ? "pair" : "?", e.v); }; }
inline auto h_exc(Run& r, int i) { return [c = Cap(&r, i)](std::exception const& e) { handler(c, "exc", exc_tok(e)); }; }
struct name_all {
  void operator()(Cap const& c, E0 const& e) const { handler(c, e.name, e.v); }
  void operator()(Cap const& c, E1 const& e) const { handler(c, e.name, e.v); }
  void operator()(Cap const& c, E0 const& e, int) const { handler(c, "pair", e.v); }
  void operator()(Cap const& c, std::exception const& e) const { handler(c, "exc", exc_tok(e)); }
};
inline auto h_all(Run& r, int i) { return [c = Cap(&r, i)](auto&&... e) { name_all{}(c, e...); }; }
inline auto h_E0E1(Run& r, int i) {
  struct F { Cap c; void operator()(E0 const& e) { handler(c, e.name, e.v); }
                    void operator()(E1 const& e) { handler(c, e.name, e.v); } };
  return F{Cap(&r, i)};
}

// (a pipe that holds plain functions can only be given away, not copied: it does not compile)
template <bool loop, bool sync, bool copy, typename Make>
void go(Run& r, J const& op, Make mk) {
  auto mode = op["mode"].asString();
  int n = op["args"].size();
  Tok t(n ? op["args"][0].asInt() : 0);
  if constexpr (loop) {
    if constexpr (copy)
      if (mode == "copy") { auto p = mk(); if (n) nbdl::run_async_loop(p, t); else nbdl::run_async_loop(p); return; }
    if (n) nbdl::run_async_loop(mk(), t); else nbdl::run_async_loop(mk());
  } else {
    if constexpr (sync)
      if (mode == "sync") { auto p = mk(); if (n) nbdl::run_sync(p, t); else nbdl::run_sync(p); return; }
    if constexpr (copy)
      if (mode == "copy") { auto p = mk(); if (n) nbdl::run_async(p, t); else nbdl::run_async(p); return; }
    if (n) nbdl::run_async(mk(), t); else nbdl::run_async(mk());
  }
}
void start_shape(int shape, Run& r, J const& op);    // generated

inline int pipeline_main() {
  run_op = [](J const& op) {
    auto t = op["t"].asString();
    if (t == "start") {
      int id = op["run"].asInt();
      if (runs.count(id)) return;
      auto& r = *(runs[id] = std::make_unique<Run>());
      int n = op["flat"].size() + 1;
      r.id = id; r.op = op; r.live.assign(n, 0); r.made.assign(n, 0); r.has.assign(n, false);
      J e = ev("start"); e["run"] = id; e["shape"] = op["flat"]; e["loop"] = op["loop"]; e["args"] = op["args"]; emit(e);
      start_shape(op["shape"].asInt(), r, op);
    }
    else if (t == "complete") {
      auto it = runs.find(op["run"].asInt());
      if (it == runs.end() || !it->second->pending) return;
      Run& r = *it->second;
      auto f = std::move(r.pending); r.pending = nullptr;
      J then = r.then;
      emit_out("complete", r, then);
      f(then);
    }
    else ::_exit(12);
  };
  auto settled = [] {
    J e = ev("settled"), l = arr();
    for (auto& [id, r] : runs) {
      J x = obj(); x["run"] = id; x["live"] = arr(); x["made"] = arr();
      for (size_t i = 0; i < r->live.size(); i++) {
        if (r->has[i]) x["live"].append(r->live[i]);
        if (r->made[i]) x["made"].append(r->made[i]);
      }
      l.append(x);
    }
    e["runs"] = l; emit(e);
  };
  return main_loop([&](J const& ep) {
    runs.clear(); refs.clear();
    emit(ev("reset"));
    for (auto const& op : ep["ops"]) { run_op(op); settled(); }
    // nothing may stay unfinished
    for (int again = 0; again < 400; again++) {
      int id = 0;
      for (auto& [k, r] : runs) if (r->pending) { id = k; break; }
      if (!id) break;
      J op = obj(); op["t"] = "complete"; op["run"] = id;
      run_op(op); settled();
    }
  });
}
