// Bindable values of the types of JsonDoc.tla, written to and read from JSON text.
#include "jsontypes.hpp"
#include <nbdl/binder/jsoncpp.hpp>

template <typename T> void with(J const& ep) {
  auto type = ep["type"].asString();
  namespace b = nbdl::binder::jsoncpp;
  for (auto const& v : ep["vals"]) {
    T x{}; fill(x, v);
    J e = ev("write"); e["type"] = type; e["val"] = show(x); e["text"] = b::to_string(x); emit(e);
    T y{}; J r = ev("back"); r["was"] = e["val"];
    try { b::from_string(e["text"].asString(), y); r["ok"] = true; } catch (std::exception const& x) { r["ok"] = false; }
    r["val"] = show(y); r["equal"] = show(y) == show(x); emit(r);
  }
  for (auto const& t : ep["texts"]) {
    T y{}; J r = ev("read"); r["type"] = type; r["text"] = t;
    try { b::from_string(t.asString(), y); r["ok"] = true; } catch (std::exception const&) { r["ok"] = false; }
    r["val"] = r["ok"].asBool() ? show(y) : node("none"); emit(r);
  }
}
static void run(J const& ep) {
  emit(ev("reset"));
  by_name<true>(ep["type"].asString(), [&]<typename T>() { with<T>(ep); });
}
int main() { emit_limit() = 100000; return main_loop(run); }
