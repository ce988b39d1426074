// An application whose route is the page's address: history, context, and who is told
#pragma once
#include "page.hpp"
#include "routes.hpp"
#include <nbdl/make_context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/match.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/webui/nav_route.hpp>

struct nav_context { };
struct watcher { template <typename C> struct actor_impl; };
template <typename C> struct watcher::actor_impl { using hana_tag = watcher; C context; template <typename A> actor_impl(nbdl::actor_initializer<C, A>&& a) : context(a.context) { } };
inline std::set<std::string>& told() { static std::set<std::string> s; return s; }
using text_path = hana::tuple<std::decay_t<decltype(nbdl::webui::nav_route_s)>, hana::type<nbdl::string>>;
using route_path = hana::tuple<std::decay_t<decltype(nbdl::webui::nav_route_s)>>;
template <typename P> void heard(P const&) {
  if constexpr (std::is_same_v<std::decay_t<P>, text_path>) told().insert("text");
  else if constexpr (std::is_same_v<std::decay_t<P>, route_path>) told().insert("route");
  else told().insert("?");
}
namespace nbdl {
  template <typename C> struct actor_type<watcher, C> { using type = watcher::actor_impl<C>; };
  template <> struct send_downstream_message_impl<watcher> { template <typename O, typename M> static void apply(O&, M&&) { } };
  template <> struct notify_state_change_impl<watcher> { template <typename O, typename P> static void apply(O&, P const& p) { heard(p); } };
}

inline emscripten::val js(char const* name) { return emscripten::val::global(name); }
inline std::string address() { return js("location")["pathname"].template as<std::string>(); }
inline J complaints() { J r = arr(); auto e = js("pageErrors")(); int n = e["length"].template as<int>(); for (int i = 0; i < n; ++i) r.append(e[i].template as<std::string>()); return r; }

template <typename Ctx, typename Map, typename Do> void nav(Map map, J const& ep, Do go) {
  namespace message = nbdl::message;
  using V = typename Map::variant;
  J r = ev("reset"); r["table"] = ep["table"]; r["prefix"] = ep["prefix"];
  js("page")(emscripten::val("")); js("forget")();
  { J c = complaints(); }
  auto module = emscripten::val::module_property;
  emscripten::val m = js("Module");
  std::string prefix = text(ep["prefix"]);
  if (prefix.empty()) m.delete_("NBDL_WEBUI_NAV_URI_PREFIX"); else m.set("NBDL_WEBUI_NAV_URI_PREFIX", emscripten::val(prefix));
  // what was visited before
  auto visit = [&](std::string const& s) { js("history").call<void>("pushState", emscripten::val::null(), emscripten::val(""), emscripten::val(s)); };
  emit(r);
  auto make = [] { return nbdl::make_unique_context<Ctx>(); };
  decltype(make()) ctx{};
  std::set<std::string> before;
  for (auto const& op : ep["ops"]) {
    std::string k = op["op"].asString();
    J e = ev(k.c_str());
    told().clear();
    if (k == "visit") { visit(text(op["s"])); e["s"] = codes(address()); }
    else if (k == "start") ctx = make();
    else if (k == "stop") ctx.reset();
    else if (k == "back" || k == "forward") js("history").template call<void>(k.c_str());
    else if (ctx && k == "go") { e["x"] = op["x"]; e["whole"] = op["whole"];
      auto send = [&](auto const& x) { nbdl::apply_message(*ctx, message::make_upstream_update(hana::make_tuple(nbdl::webui::nav_route_s), message::no_uid, x)); };
      if (op["x"]["r"].asInt() == 0) send(V{});
      else go(op["x"], [&](auto const& x) { if (op["whole"].asBool()) send(map.to_variant(x)); else send(x); }); }
    else if (ctx && k == "text") { e["s"] = op["s"];
      nbdl::apply_message(*ctx, message::make_upstream_update(hana::make_tuple(nbdl::webui::nav_route_s, hana::type_c<nbdl::string>), message::no_uid, Str(text(op["s"])))); }
    else continue;
    e["addr"] = codes(address()); e["length"] = js("history")["length"].template as<int>();
    e["up"] = bool(ctx);
    e["text"] = arr(); e["route"] = taken(nbdl::webui::route_not_found{}); e["told"] = arr();
    if (ctx) {
      for (auto const& s : told()) e["told"].append(s);
      nbdl::match(*ctx, hana::make_tuple(nbdl::webui::nav_route_s), [&](auto const& x) { e["route"] = taken(x); });
      nbdl::match(*ctx, hana::make_tuple(nbdl::webui::nav_route_s, hana::type_c<nbdl::string>), [&](nbdl::string const& s) { e["text"] = codes(s); });
    }
    e["errors"] = complaints();
    emit(e);
  }
}
