// Pushes messages into nbdl::context definitions made of spies and records every
// application, delivery and notification.  -DCTX=<n> selects the definition.
#include "common.hpp"
#include <mpdef/list.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/apply_foreign_message.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/make_store.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <nbdl/null_store.hpp>
#include <nbdl/producer_init.hpp>
#include <nbdl/echo_producer.hpp>
#include <memory>

namespace hana = boost::hana;
namespace message = nbdl::message;
using namespace vh;

#ifndef CTX
#define CTX 1
#endif

namespace spy {
  template <int i> struct K { int value; K(int x) : value(x) { } K(K const&) = default; K& operator=(K const&) = default; };
  struct Unit { };                     // an empty key: creates under it need no key
  struct Uid { std::string v; };
  struct Entity { std::string v; };

  template <int i> struct prod { template <typename C> struct actor_impl; };
  template <int i> struct cons { template <typename C> struct actor_impl; };
  template <int i> struct obs  { template <typename C> struct actor_impl; };
#define ACTOR(T) \
  template <int i> template <typename C> struct T<i>::actor_impl { \
    using hana_tag = T<i>; C context; \
    template <typename A> actor_impl(nbdl::actor_initializer<C, A>&& p) : context(p.context) { } };
  ACTOR(prod) ACTOR(cons) ACTOR(obs)

  struct mock_tag { };
  struct quiet_tag { };                // knows of foreign messages only; its own reach it as such
  template <typename Path, typename Tag = mock_tag> struct mock_store { using hana_tag = Tag; };
}
namespace boost::hana {
  template <int i> struct equal_impl<spy::K<i>, spy::K<i>>
  { template <typename A, typename B> static constexpr bool apply(A const& a, B const& b) { return a.value == b.value; } };
}
namespace nbdl {
  template <int i> struct bind_sequence_impl<spy::K<i>>
  { template <typename P, typename F> static constexpr auto apply(P&& p, F&& f) { return std::forward<F>(f)(p.value); } };
}

using spy::K;
#ifndef GEN_IS_NULL
#define GEN_IS_NULL(i) false
#endif
// ---------------------------------------------------------------- path types of the definition
template <typename ...T> struct paths { };
template <typename P> struct path_index;      // path type -> "pN"

template <typename P> struct P2 {};           // two keys
#if CTX == 1
  // two producers; a state observer and a plain consumer; p2 listens to p1; p3 is a map store
  using Path0 = hana::tuple<K<0>, K<1>>;
  using Path1 = hana::tuple<K<2>, K<1>>;
  using Path2 = hana::tuple<K<2>, K<3>>;
  using Path3 = hana::tuple<K<2>, K<4>>;
  using Path4 = hana::tuple<K<2>, spy::Unit>;
  using Paths = paths<Path0, Path1, Path2, Path3, Path4>;
#elif CTX == 2
  // three producers, three consumers (observer, plain, observer), paths of depth 1, 2, 3,
  // listeners across producers and several listeners for one path
  using Path0 = hana::tuple<K<0>>;
  using Path1 = hana::tuple<K<0>, K<1>>;
  using Path2 = hana::tuple<K<2>, K<3>, K<4>>;
  using Path3 = hana::tuple<K<5>>;
  using Paths = paths<Path0, Path1, Path2, Path3>;
#elif CTX == 3
  // a single producer and a single observer, declared without the plural directives
  using Path0 = hana::tuple<K<0>, K<1>>;
  using Paths = paths<Path0>;
#elif CTX == 4
  // map stores, and a mock store listening to one of them
  using Path0 = hana::tuple<K<0>, K<1>>;
  using Path1 = hana::tuple<K<2>, K<1>>;
  using Path2 = hana::tuple<K<2>, K<3>>;
  using Paths = paths<Path0, Path1, Path2>;
#elif CTX == 5
  // two echo producers and another one; p3 listens to p0 and p4
  using Path0 = hana::tuple<K<0>, K<1>>;
  using Path1 = hana::tuple<long>;
  using Path2 = hana::tuple<K<2>, int>;
  using Path3 = hana::tuple<K<2>, K<3>>;
  using Path4 = hana::tuple<K<5>>;
  using Path5 = hana::tuple<K<2>, spy::Unit>;
  using Paths = paths<Path0, Path1, Path2, Path3, Path4, Path5>;
#elif CTX == 9      // generated (vlib/ctxgen.py)
  using Paths = GEN_PATHS;
#endif

namespace spy { struct context_def { }; }
namespace spy_def {
    using namespace nbdl_def;
    constexpr auto make() {
      using spy::Unit; using spy::mock_tag; using spy::quiet_tag; using spy::prod; using spy::cons; using spy::obs;
      auto constexpr v = hana::type_c<void>;
#define AP2(A, B, S, ...) \
      AccessPoint(Name(v), Entity<spy::Entity>, PathKey<A>, \
        AccessPoint(Name(v), Entity<spy::Entity>, PathKey<B>, Store<S>, \
          Actions(Create(), Read(), Update(), Delete()) __VA_ARGS__))
#if CTX == 1
      return Context(
        Producers(
          Producer(Name(hana::int_c<10>), Type<prod<0>>, AP2(K<0>, K<1>, quiet_tag)),
          Producer(Name(hana::int_c<11>), Type<prod<1>>, AccessPoints(
            AP2(K<2>, K<1>, mock_tag),
            AP2(K<2>, K<3>, mock_tag, , ListenPaths(Path<K<2>, K<1>>)),
            AP2(K<2>, K<4>, nbdl::map_store_tag),
            AP2(K<2>, Unit, mock_tag)))),
        Consumers(
          Consumer(Name(hana::int_c<12>), Type<obs<2>>),
          Consumer(Name(hana::int_c<13>), Type<cons<3>>)));
#elif CTX == 2
      return Context(
        Producers(
          Producer(Name(hana::int_c<10>), Type<prod<0>>,
            AccessPoint(Name(v), Entity<spy::Entity>, PathKey<K<0>>, Store<mock_tag>,
              Actions(Create(), Read(), Update(), Delete()),
              AccessPoint(Name(v), Entity<spy::Entity>, PathKey<K<1>>, Store<mock_tag>,
                Actions(Create(), Read(), Update(), Delete()),
                ListenPaths(Path<K<0>>)))),
          Producer(Name(hana::int_c<11>), Type<prod<1>>,
            AccessPoint(Name(v), Entity<spy::Entity>, PathKey<K<2>>,
              AccessPoint(Name(v), Entity<spy::Entity>, PathKey<K<3>>,
                AccessPoint(Name(v), Entity<spy::Entity>, PathKey<K<4>>, Store<mock_tag>,
                  Actions(Create(), Read(), Update(), Delete()),
                  ListenPaths(Path<K<0>>, Path<K<0>, K<1>>))))),
          Producer(Name(hana::int_c<12>), Type<prod<2>>,
            AccessPoint(Name(v), Entity<spy::Entity>, PathKey<K<5>>, Store<mock_tag>,
              Actions(Create(), Read(), Update(), Delete()),
              ListenPaths(Path<K<2>, K<3>, K<4>>, Path<K<0>>)))),
        Consumers(
          Consumer(Name(hana::int_c<13>), Type<obs<3>>),
          Consumer(Name(hana::int_c<14>), Type<cons<4>>),
          Consumer(Name(hana::int_c<15>), Type<obs<5>>)));
#elif CTX == 3
      return Context(
        Producer(Name(hana::int_c<10>), Type<prod<0>>, AP2(K<0>, K<1>, mock_tag)),
        Consumer(Name(hana::int_c<11>), Type<obs<1>>));
#elif CTX == 4
      return Context(
        Producers(
          Producer(Name(hana::int_c<10>), Type<prod<0>>, AP2(K<0>, K<1>, nbdl::map_store_tag)),
          Producer(Name(hana::int_c<11>), Type<prod<1>>, AccessPoints(
            AP2(K<2>, K<1>, nbdl::map_store_tag),
            AP2(K<2>, K<3>, mock_tag, , ListenPaths(Path<K<0>, K<1>>))))),
        Consumers(
          Consumer(Name(hana::int_c<12>), Type<obs<2>>),
          Consumer(Name(hana::int_c<13>), Type<cons<3>>)));
#elif CTX == 5
      return Context(
        Producers(
          Producer(Name(hana::int_c<10>), Type<nbdl::echo_producer>, AccessPoints(
            AP2(K<0>, K<1>, nbdl::map_store_tag),
            AccessPoint(Name(v), Entity<spy::Entity>, PathKey<long>, Store<nbdl::map_store_tag>,
              Actions(Create(), Read(), Update(), Delete())))),
          Producer(Name(hana::int_c<11>), Type<nbdl::echo_producer>, AccessPoints(
            AP2(K<2>, int, nbdl::map_store_tag),
            AP2(K<2>, K<3>, mock_tag, , ListenPaths(Path<K<0>, K<1>>, Path<K<5>>)),
            AP2(K<2>, Unit, mock_tag))),
          Producer(Name(hana::int_c<12>), Type<prod<2>>,
            AccessPoint(Name(v), Entity<spy::Entity>, PathKey<K<5>>, Store<mock_tag>,
              Actions(Create(), Read(), Update(), Delete())))),
        Consumers(
          Consumer(Name(hana::int_c<13>), Type<obs<3>>),
          Consumer(Name(hana::int_c<14>), Type<cons<4>>),
          Consumer(Name(hana::int_c<15>), Type<obs<5>>)));
#elif CTX == 9
      return GEN_DEF;
#endif
    }
}
namespace nbdl {
  template <> struct make_def_impl<spy::context_def> {
    static constexpr auto apply() { return spy_def::make(); }
  };
}

// ---------------------------------------------------------------- describing paths and messages
template <typename P, typename ...T>
constexpr int index_in(paths<T...>) {
  int i = 0, r = -1; ((std::is_same_v<P, T> ? (r = i, ++i) : ++i), ...); return r;
}
template <typename P> std::string pt_name() { return "p" + std::to_string(index_in<P>(Paths{})); }

inline int kv(...) { return -77; }
template <int i> int kv(K<i> const& k) { return k.value; }
inline int kv(int k) { return k; }
inline int kv(long k) { return int(k); }

template <typename P> P make_path(int a, int b) {
  if constexpr (decltype(hana::length(std::declval<P>()))::value == 1) return P(b);
  else if constexpr (decltype(hana::length(std::declval<P>()))::value == 3) return P(a, b, b + 1);
  else if constexpr (decltype(hana::length(std::declval<P>()))::value == 4) return P(a, b, b + 1, b + 2);
  else if constexpr (std::is_same_v<std::decay_t<decltype(hana::back(std::declval<P>()))>, spy::Unit>)
    return P(a, spy::Unit{});
  else return P(a, b);
}
template <typename P> void describe_path(J& j, P const& p) {
  j["pt"] = pt_name<P>();
  if constexpr (decltype(hana::length(p))::value == 1) { j["a"] = 1; j["b"] = kv(hana::at_c<0>(p)); }
  else if constexpr (decltype(hana::length(p))::value == 3) {
    j["a"] = kv(hana::at_c<0>(p));
    int b = kv(hana::at_c<1>(p)); j["b"] = kv(hana::at_c<2>(p)) == b + 1 ? b : -99;
  }
  else if constexpr (decltype(hana::length(p))::value == 4) {
    j["a"] = kv(hana::at_c<0>(p));
    int b = kv(hana::at_c<1>(p));
    j["b"] = kv(hana::at_c<2>(p)) == b + 1 && kv(hana::at_c<3>(p)) == b + 2 ? b : -99;
  }
  else {
    j["a"] = kv(hana::at_c<0>(p));
    if constexpr (std::is_same_v<std::decay_t<decltype(hana::back(p))>, spy::Unit>) j["b"] = 0;
    else j["b"] = kv(hana::at_c<1>(p));
  }
}
template <typename Key, typename Parent> void describe_path(J& j, message::create_path<Key, Parent> const& p) {
  using Full = std::decay_t<decltype(hana::append(p.parent_path, std::declval<Key>()))>;
  j["pt"] = pt_name<Full>();
  constexpr int n = decltype(hana::length(p.parent_path))::value;
  if constexpr (n == 0) j["a"] = 1;
  else j["a"] = kv(hana::at_c<0>(p.parent_path));
  j["b"] = 0;
  if constexpr (n >= 2) if (kv(hana::at_c<1>(p.parent_path)) != 4) j["b"] = -99;
  if constexpr (n >= 3) if (kv(hana::at_c<2>(p.parent_path)) != 5) j["b"] = -99;
}
inline std::string show(spy::Uid const& u) { return u.v; }
inline std::string show(int u) { return std::to_string(u); }
inline std::string show(spy::Entity const& e) { return e.v; }
inline std::string show(nbdl::not_found) { return "nf"; }
inline std::string show(nbdl::not_in_set) { return "not_in_set"; }
inline std::string show(nbdl::unresolved) { return "unresolved"; }
inline std::string show(nbdl::trigger_read) { return "trigger"; }
inline std::string show(message::no_impl) { return "none"; }
inline std::string show_conf(bool b) { return b ? "true" : "false"; }
inline std::string show_conf(message::no_impl) { return "none"; }
inline std::string show_conf(hana::false_) { return "none"; }

template <typename M> J describe(M const& m) {
  J j = obj();
  describe_path(j, message::get_path(m));
  std::string k = message::is_upstream<M> ? "up_" : "down_";
  if (message::is_create<M>) k += "create";
  else if (message::is_read<M>) k += "read";
  else if (message::is_update<M>) k += "update";
  else if (message::is_delete<M>) k += "delete";
  if constexpr (message::is_upstream<M> && message::is_create<M>)
    if constexpr (hana::is_a<message::create_path_tag, decltype(message::get_path(m))>) {
      using Key = typename std::decay_t<decltype(message::get_path(m))>::key;
      if constexpr (!message::is_path_normalizable<M>) k += "_nokey";
      else if constexpr (std::is_empty_v<Key>) k += "_empty";
      else k += "_uid";
    }
  j["kind"] = k;
  if constexpr (message::has_uid<M>) j["uid"] = show(message::get_uid(m)); else j["uid"] = "none";
  if constexpr (message::has_payload<M>) j["val"] = show(message::get_payload(m)); else j["val"] = "none";
  j["conf"] = "none";
  if constexpr (!message::is_read<M>)
    if constexpr (message::has_is_confirmed<M>) j["conf"] = show_conf(message::is_confirmed(m));
  return j;
}
template <typename P> J describe_path(P const& p) { J j = obj(); describe_path(j, p); return j; }

// ---------------------------------------------------------------- the scripted environment
struct active { J const* op; std::vector<bool> used; };
static std::vector<active> current;
static std::map<std::string, std::string> status;       // what mock stores show
static std::function<void(J const&)> run_op;
static std::string pkey(J const& p) { return p["pt"].asString() + "/" + p["a"].asString() + "/" + p["b"].asString(); }
static int depth = 0;

static void hook(char const* h, int i) {
  if (current.empty()) return;
  auto idx = current.size() - 1;
  J const& nest = (*current[idx].op)["nest"];
  for (Json::ArrayIndex n = 0; n < nest.size(); n++) {
    if (current[idx].used[n] || nest[n]["h"].asString() != h || nest[n]["i"].asInt() != i) continue;
    current[idx].used[n] = true;
    for (auto const& op : nest[n]["ops"]) run_op(op);
    break;
  }
}

namespace nbdl {
  template <int i> struct send_upstream_message_impl<spy::prod<i>> {
    template <typename A, typename M> static void apply(A&&, M const& m) {
      J e = ev("up"); e["i"] = i; e["m"] = describe(m); emit(e); hook("up", i); }
  };
  template <int i> struct send_downstream_message_impl<spy::cons<i>> {
    template <typename A, typename M> static void apply(A&&, M const& m) {
      J e = ev("down"); e["i"] = i; e["m"] = describe(m); emit(e); hook("down", i); }
  };
  template <int i> struct send_downstream_message_impl<spy::obs<i>> {
    template <typename A, typename M> static void apply(A&&, M const& m) {
      J e = ev("down"); e["i"] = i; e["m"] = describe(m); emit(e); hook("down", i); }
  };
  template <int i> struct notify_state_change_impl<spy::obs<i>> {
    template <typename A, typename P> static void apply(A&&, P const& p) {
      J e = ev("notify"); e["i"] = i; e["p"] = describe_path(p); emit(e); hook("notify", i); }
  };
  template <> struct make_store_impl<spy::mock_tag> {
    template <typename P, typename E> static constexpr auto apply(P, E) -> spy::mock_store<typename P::type> { return {}; }
  };
  template <> struct apply_message_impl<spy::mock_tag> {
    template <typename S, typename M> static bool apply(S&&, M const& m) {
      J e = ev("apply"); e["m"] = describe(m);
      bool c = !current.empty() && (*current.back().op)["changed"].asBool();
      e["changed"] = c; emit(e);
      return c;
    }
  };
  template <> struct apply_foreign_message_impl<spy::mock_tag> {
    template <typename P, typename M, typename F>
    static void apply(spy::mock_store<P>&, M const& m, F const& mark) {
      J e = ev("foreign"); e["pt"] = pt_name<P>(); e["m"] = describe(m);
      J ps = arr();
      if (!current.empty())
        for (auto const& x : (*current.back().op)["marks"])
          if (x["pt"].asString() == pt_name<P>()) ps.append(describe_path(make_path<P>(x["a"].asInt(), x["b"].asInt())));
      e["paths"] = ps; emit(e);
      for (auto const& x : ps) mark(make_path<P>(x["a"].asInt(), x["b"].asInt()));
    }
  };
  template <> struct make_store_impl<spy::quiet_tag> {
    template <typename P, typename E> static constexpr auto apply(P, E) -> spy::mock_store<typename P::type, spy::quiet_tag> { return {}; }
  };
  template <> struct apply_foreign_message_impl<spy::quiet_tag> {
    template <typename P, typename M, typename F>
    static void apply(spy::mock_store<P, spy::quiet_tag>&, M const& m, F const& mark) {
      if constexpr (std::is_same_v<P, typename decltype(message::get_path_type(m))::type>) {
        J e = ev("apply"); e["m"] = describe(m);
        bool c = !current.empty() && (*current.back().op)["changed"].asBool();
        e["changed"] = c; emit(e);
        if (c) { mark(make_path<P>(1, 1)); if (current.size() % 2) mark(make_path<P>(2, 3)); }
      } else {
        spy::mock_store<P> as{};
        apply_foreign_message_impl<spy::mock_tag>::apply(as, m, mark);
      }
    }
  };
  template <> struct match_impl<spy::mock_tag> {
    template <typename S, typename P, typename F> static void apply(S&&, P const& p, F&& f) {
      auto it = status.find(pkey(describe_path(p)));
      std::string s = it == status.end() ? "trigger" : it->second;
      if (s == "trigger") f(nbdl::trigger_read{});
      else if (s == "unresolved") f(nbdl::unresolved{});
      else if (s == "nf") f(nbdl::not_found{});
      else { spy::Entity v{s}; f(v); }
    }
  };
  template <> struct match_impl<spy::quiet_tag> : match_impl<spy::mock_tag> { };
  template <> struct get_impl<spy::mock_tag> {
    template <typename S, typename P> static spy::Entity apply(S&&, P const& p) {
      auto it = status.find(pkey(describe_path(p)));
      return {it == status.end() ? "trigger" : it->second};
    }
  };
  template <> struct get_impl<spy::quiet_tag> : get_impl<spy::mock_tag> { };
}

using Ctx = nbdl::context<spy::context_def>;
static std::unique_ptr<Ctx> ctx;

template <typename F, typename ...T> void with_path(std::string const& pt, paths<T...>, F f) {
  int i = 0; bool hit = false;
  ((pt == "p" + std::to_string(i++) ? (hit = true, f(hana::type_c<T>), 0) : 0), ...);
  if (!hit) ::_exit(5);
}

template <typename M> void push(J const& op, M const& m) {
  // Producers and consumers push through their own handle, others through the context
  auto by = op["by"].asInt();
  bool done = false;
  constexpr int n =
#if CTX == 2 || CTX == 5
    6
#elif CTX == 3
    2
#elif CTX == 9
    GEN_ACTORS
#else
    4
#endif
    ;
  if (by < 0) { nbdl::apply_message(*ctx, m); return; }
  [&]<int ...i>(std::integer_sequence<int, i...>) {
    ((by == i ? (done = true, (void)nbdl::apply_message(ctx->template actor<i>().context, m), 0) : 0), ...);
  }(std::make_integer_sequence<int, n>{});
  if (!done) ::_exit(6);
}

template <typename P> void push_on(J const& op) {
  J const& d = op["m"];
  auto kind = d["kind"].asString(), val = d["val"].asString(), uid = d["uid"].asString(), conf = d["conf"].asString();
  int a = d["a"].asInt(), b = d["b"].asInt();
  P p = make_path<P>(a, b);
  using Key = std::decay_t<decltype(hana::back(p))>;
  auto parent = hana::drop_back(p);
  using Parent = std::decay_t<decltype(parent)>;
  if constexpr (decltype(hana::length(p))::value == 3) parent = Parent(a, 4);
  if constexpr (decltype(hana::length(p))::value == 4) parent = Parent(a, 4, 5);
  auto create = message::make_create_path<Key>(parent);
  spy::Uid u{uid};
  spy::Entity e{val};
  auto with_uid = [&](auto f) { if (uid == "none") f(message::no_uid); else f(u); };
  auto with_uid_conf = [&](auto f) {
    if (uid == "none" && conf == "none") f(message::no_uid, message::no_is_confirmed);
    else if (uid == "none" && conf == "false") f(message::no_uid, false);
    else f(u, true);
  };
  if (kind == "up_create") with_uid([&](auto u) { push(op, message::make_upstream_create(p, u, e)); });
  else if (kind == "up_create_nokey" || kind == "up_create_empty")
    with_uid([&](auto u) {
      if (op["priv"].asBool()) push(op, message::make_upstream_create(create, u, e, spy::Uid{"secret"}));
      else push(op, message::make_upstream_create(create, u, e)); });
  else if (kind == "up_create_uid") {
    if constexpr (!std::is_empty_v<Key>) {
#if CTX == 5
      if constexpr (index_in<P>(Paths{}) >= 3)
#elif CTX == 9
      if constexpr (!GEN_IS_MAP(index_in<P>(Paths{})))
#elif CTX != 4
      if constexpr (index_in<P>(Paths{}) != 3 || CTX != 1)
#else
      if constexpr (index_in<P>(Paths{}) == 2)
#endif
        push(op, message::make_upstream_create(create, std::stoi(uid), e));
    }
  }
  else if (kind == "up_read") {
    if constexpr (!GEN_IS_NULL(index_in<P>(Paths{})))       // nothing can be read where nothing is stored
      with_uid([&](auto u) { push(op, message::make_upstream_read(p, u)); });
    else ::_exit(10);
  }
  else if (kind == "up_update") with_uid([&](auto u) { push(op, message::make_upstream_update(p, u, e)); });
  else if (kind == "up_delete") with_uid([&](auto u) { push(op, message::make_upstream_delete(p, u)); });
  else if (kind == "down_create") with_uid_conf([&](auto u, auto c) { push(op, message::make_downstream_create(p, u, e, c)); });
  else if (kind == "down_read") with_uid([&](auto u) {
    if (val == "nf") push(op, message::make_downstream_read(p, u, nbdl::not_found{}));
    else push(op, message::make_downstream_read(p, u, e)); });
  else if (kind == "down_update") with_uid_conf([&](auto u, auto c) { push(op, message::make_downstream_update(p, u, e, c)); });
  else if (kind == "down_delete") with_uid_conf([&](auto u, auto c) { push(op, message::make_downstream_delete(p, u, c)); });
  else ::_exit(7);
}

template <typename P> void look(J const& op) {
  if constexpr (GEN_IS_NULL(index_in<P>(Paths{}))) ::_exit(10);
  else {
  P p = make_path<P>(op["p"]["a"].asInt(), op["p"]["b"].asInt());
  std::string s; int calls = 0;
  auto f = [&](auto const& v) { calls++; s = show(v); };
  int by = op["by"].asInt();
  auto it = status.find(pkey(op["p"]));
  // the value itself, where the store can give it
#if CTX == 9
  constexpr bool gettable = !GEN_IS_MAP(index_in<P>(Paths{}));
#else
  constexpr bool gettable = CTX == 1 ? index_in<P>(Paths{}) != 3 : CTX == 2 || CTX == 3;
#endif
  if constexpr (gettable) {
    if (op["get"].asBool() && it != status.end() && it->second != "trigger") {
      calls = 1; s = show(by < 0 ? nbdl::get(std::as_const(*ctx), p) : nbdl::get(ctx->template actor<0>().context, p));
    }
  }
  if (calls) ;
  else if (by < 0) nbdl::match(*ctx, p, f);
  else nbdl::match(ctx->template actor<0>().context, p, f);
  J e = ev("shown"); e["p"] = describe_path(p);
  e["s"] = calls == 1 ? s : "calls:" + std::to_string(calls);
  emit(e);
  }
}

int main() {
  run_op = [](J const& op) {
    if (++depth > 12) { J e = ev("crash"); e["what"] = "endless nesting"; emit(e); ::_exit(8); }
    auto t = op["t"].asString();
    if (t == "set") {
      J e = ev("set"); e["p"] = op["p"]; e["s"] = op["s"]; emit(e);
      status[pkey(op["p"])] = op["s"].asString();
    } else if (t == "push") {
      J e = ev("push"); e["m"] = op["m"]; emit(e);
      current.push_back({&op, std::vector<bool>(op["nest"].size(), false)});
      with_path(op["m"]["pt"].asString(), Paths{}, [&](auto t) { push_on<typename decltype(t)::type>(op); });
      current.pop_back();
      emit(ev("done"));
    } else if (t == "look") {
      J e = ev("look"); e["p"] = op["p"]; emit(e);
      current.push_back({&op, std::vector<bool>(op["nest"].size(), false)});
      with_path(op["p"]["pt"].asString(), Paths{}, [&](auto t) { look<typename decltype(t)::type>(op); });
      current.pop_back();
    } else ::_exit(9);
    --depth;
  };
  return main_loop([](J const& ep) {
    status.clear(); current.clear(); depth = 0;
    J r = ev("reset"); r["cfg"] = ep["cfg"]; emit(r);
    ctx = std::make_unique<Ctx>();
    for (auto const& op : ep["ops"]) run_op(op);
    ctx.reset();
  });
}
