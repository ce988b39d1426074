// Views over stores: rendered into the page, updated, and fired at
#pragma once
#include "page.hpp"
#include "branches.hpp"
#include <nbdl/notify_state_change.hpp>
#include <nbdl/webui/html.hpp>
#include <nbdl/webui/renderer.hpp>
namespace html = nbdl::webui::html;
using nbdl::detail::js_val;

template <typename T> using Vec = std::vector<T>;
template <typename T> struct As<Vec<T>> {
  static Vec<T> make(J const& t) { Vec<T> r; for (auto const& c : t["c"]) r.push_back(As<T>::make(c[1])); return r; }
  static J show(Vec<T> const& x) { J n = node("list"); for (auto const& e : x) child(n, "", As<T>::show(e)); return n; } };
struct Bag { Str s; Vec<Pt> v; };
namespace nbdl { NBDL_ENTITY(Bag, s, v); }
template <> struct As<Bag> {
  static Bag make(J const& t) { return Bag{As<Str>::make(at(t, 0)), As<Vec<Pt>>::make(at(t, 1))}; }
  static J show(Bag const& x) { J n = node("rec", "bag"); child(n, "s", As<Str>::show(x.s)); child(n, "v", As<Vec<Pt>>::show(x.v)); return n; } };
// the object of an event, by its type
template <> struct As<js_val> { static J show(js_val const& x) { return node("none", x.as_val()["type"].template as<std::string>()); } };

// a store that tells the renderer when it has been changed
template <typename S> struct live_tag { };
template <typename S> struct Live {
  using hana_tag = live_tag<S>;
  S value; std::function<void()> changed = [] { };
};
struct Next { };        // the next of the terms in the operation
inline J next_terms; inline int next_at = 0;

namespace nbdl {
  template <typename S> requires State<S> struct get_impl<live_tag<S>> {
    template <typename L, typename K> static constexpr decltype(auto) apply(L&& l, K&& k) { return nbdl::get(std::forward<L>(l).value, std::forward<K>(k)); } };
  template <typename S> struct match_impl<live_tag<S>> {
    template <typename L, typename K, typename F> static constexpr void apply(L&& l, K&& k, F&& f) { nbdl::match(std::forward<L>(l).value, std::forward<K>(k), std::forward<F>(f)); }
    template <typename L, typename F> static constexpr void apply(L&& l, F&& f) { nbdl::match(std::forward<L>(l).value, std::forward<F>(f)); } };
  template <typename S> struct apply_action_impl<live_tag<S>> {
    template <typename L, typename A> static void apply(L& l, A&&) { l.value = As<S>::make(next_terms[next_at++]); l.changed(); } };
}

inline J handled = arr(); inline bool muted = false;
// what a handler was given is noted, until one has sent something
template <int id, int sends> struct h {
  template <typename Send, typename ...X> void operator()(Send send, X const& ...x) const {
    if (muted) return;
    J c = arr(); (c.append(seen(x)), ...);
    J e = arr(); e.append(id); e.append(c); handled.append(e);
    for (int i = 0; i < sends; ++i) { muted = true; send(Next{}); }
  }
};

inline emscripten::val js(char const* name) { return emscripten::val::global(name); }
template <typename S, auto spec> void views(J const& ops) {
  using Tag = nbdl::webui::renderer<std::decay_t<decltype(spec())>>;
  using R = typename nbdl::actor_type<Tag, std::reference_wrapper<Live<S>>>::type;
  std::unique_ptr<Live<S>> s;
  std::unique_ptr<R> r;
  auto fresh = [&](char const* body) { js("page")(emscripten::val(body)); js("forget")(); };
  std::optional<emscripten::val> target;
  for (auto const& op : ops) {
    J ev = op;
    std::string const o = op["ev"].asString();
    bool skip = false;
    handled = arr(); muted = false; next_terms = op["next"]; next_at = 0;
    try {
      if (o == "reset") {
        r.reset(); kept.clear(); target.reset();
        fresh("<main></main>");
        target = js("document")["body"]["firstChild"];
        s.reset(new Live<S>{As<S>::make(op["t"])});
        r.reset(new R(nbdl::webui::make_renderer<Tag>(std::ref(*s), *target)));
        auto* rp = r.get(); s->changed = [rp] { nbdl::notify_state_change(*rp, hana::type_c<void>); };
      }
      else if (o == "set") { s->value = As<S>::make(op["t"]); s->changed(); }
      else if (o == "fire") {
        J w; std::stringstream(js("fireAt")(*target, emscripten::val(op["type"].asString()), op["i"].asInt()).template as<std::string>()) >> w;
        ev["at"] = w["at"]; ev["prevented"] = w["prevented"]; ev["got"] = handled;
      }
      else if (o == "gone") { s->changed = [] { }; r.reset(); }
      ev["threw"] = "";
    } catch (page::thrown const& e) { ev["threw"] = e.what(); }
    J errors = arr();
    auto es = js("pageErrors")();
    for (int n = es["length"].template as<int>(), i = 0; i < n; ++i) errors.append(es[i].template as<std::string>());
    ev["errors"] = errors;
    J shown = arr();
    if (target) std::stringstream(js("seenText")(*target).template as<std::string>()) >> shown;
    ev["shown"] = shown;
    emit(ev);
  }
}
