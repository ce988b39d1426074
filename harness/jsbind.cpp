// Bindable values of the types of JsonDoc.tla, as values of a browser's JavaScript and back.
#include "page.hpp"
#include "jsontypes.hpp"
#include <nbdl/binder/js.hpp>
#include <nbdl/binder/jsoncpp.hpp>

static emscripten::val global(char const* n) { return emscripten::val::global(n); }
static emscripten::val value(nbdl::js::val const& v) { return emscripten::val::module_property("nbdl_detail_json_val")[nbdl::js::get_handle(v)]; }
static int count() { return global("Object").call<emscripten::val>("keys", emscripten::val::module_property("nbdl_detail_json_val"))["length"].template as<int>(); }
static std::string text_of(nbdl::js::val const& v) { return global("JSON").call<std::string>("stringify", value(v)); }
static void parse(nbdl::js::val& v, std::string const& t) {
  emscripten::val::module_property("nbdl_detail_json_val").set(nbdl::js::get_handle(v), global("JSON").call<emscripten::val>("parse", emscripten::val(t)));
}

template <typename T> void with(J const& ep) {
  auto type = ep["type"].asString();
  namespace b = nbdl::binder::js;
  nbdl::js::val j;
  for (auto const& v : ep["vals"]) {
    T x{}; fill(x, v);
    b::bind_to(j, x);       // over whatever was there before
    J e = ev("write"); e["type"] = type; e["val"] = show(x); e["text"] = text_of(j); emit(e);
    for (auto const& u : ep["vals"]) {
      T y{}; fill(y, u); J r = ev("back"); r["was"] = e["val"]; r["ok"] = true;
      b::bind_from(j, y);
      r["val"] = show(y); r["equal"] = show(y) == show(x); emit(r);
    }
    // by the other binder, and from it
    T z{}; J r = ev("back"); r["was"] = e["val"]; r["ok"] = true;
    try { nbdl::binder::jsoncpp::from_string(e["text"].asString(), z); } catch (std::exception&) { r["ok"] = false; }
    r["val"] = show(z); r["equal"] = show(z) == show(x); emit(r);
  }
  for (auto const& t : ep["texts"]) {
    parse(j, t.asString());
    T y{}; J r = ev("read"); r["type"] = type; r["text"] = t; r["ok"] = true;
    b::bind_from(j, y);
    r["val"] = show(y); emit(r);
    r = ev("kept"); r["was"] = t; r["text"] = text_of(j); r["live"] = count(); emit(r);
  }
}
static void run(J const& ep) {
  emit(ev("reset"));
  global("forget")();
  nbdl::js::init();
  by_name<false>(ep["type"].asString(), [&]<typename T>() { with<T>(ep); });
}
int main() { emit_limit() = 100000; return page_main(run); }
