// Endpoints over the browser's WebSockets, and the peers of them.
#include "page.hpp"
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/js.hpp>
#include <nbdl/websocket_api/client_endpoint.hpp>
#include <nbdl/websocket_api/json_payload.hpp>
#include <deque>
#include <memory>
#include <queue>
using namespace vh;
namespace event = nbdl::endpoint_event;
using bytes = std::vector<unsigned char>;
using json = nbdl::websocket_api::json_payload;

static emscripten::val js(char const* n) { return emscripten::val::global(n); }
static emscripten::val registry() { return emscripten::val::module_property("nbdl_detail_json_val"); }
static J codes(std::string const& s) { J r = arr(); for (unsigned char c : s) r.append(int(c)); return r; }
static std::string text(J const& v) { std::string s; for (auto const& c : v) s += char(c.asInt()); return s; }
static std::string canonical(std::string const& s) { return js("JSON").call<std::string>("stringify", js("JSON").call<emscripten::val>("parse", emscripten::val(s))); }
static std::string hex(std::string const& s) { static char const* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static J show(bytes const& b) { J r = arr(); for (auto c : b) r.append(int(c)); return r; }
static J show(json const& v) { return codes(js("JSON").call<std::string>("stringify", registry()[nbdl::js::get_handle(v)])); }
static bytes payload(J const& v, bytes*) { bytes b; for (auto const& c : v) b.push_back(c.asInt()); return b; }
static json payload(J const& v, json*) {
  json r; registry().set(nbdl::js::get_handle(r), js("JSON").call<emscripten::val>("parse", emscripten::val(text(v)))); return r;
}

struct End {
  int i, told = 0; J react;
  virtual ~End() = default;
  virtual void say(J const&) = 0;
  virtual void close() = 0;
  virtual void drop() = 0;
  virtual J kept() const = 0;
  virtual bool live() const = 0;
  void forget(J const& what) { if (what == "close") close(); if (what == "drop") drop(); }
};
static J heard;
static void hear(End& e, char const* n, J const& b) { J h; h["i"] = e.i; h["n"] = n; h["b"] = b; heard.append(h); }

template <typename P> auto open(End* end, std::deque<P>* kept, std::string const& url) {
  return nbdl::endpoint_open(nbdl::websocket_api::client_endpoint{url, {"a token"}, {}}, std::queue<P>{}, nbdl::endpoint_handler(
    event::on_ready([end](auto& self) {
      auto* e = end; auto r = e->react["ready"];
      hear(*e, "ready", arr());
      for (auto const& p : r["say"]) self.send_message(payload(p, static_cast<P*>(nullptr)));
      if (r["then"] == "close") self.send_close(); else e->forget(r["then"]);
    })
  , event::on_message([end, kept](auto& self, auto const& p) {
      auto* e = end; auto r = e->react["message"];
      hear(*e, "message", show(p));
      kept->push_back(p);
      for (int n = r["echo"].asInt(); n > 0; --n) self.send_message(p);
      if (++e->told == r["at"].asInt()) e->forget(r["then"]);
    })
  , event::on_close([end](auto&, auto&&...) {
      auto* e = end; auto r = e->react["close"];
      hear(*e, "close", arr());
      e->forget(r["then"]);
    })));
}
template <typename P> struct Of final : End {
  using endpoint = decltype(open<P>(nullptr, nullptr, ""));
  std::deque<P> had;
  std::unique_ptr<endpoint> ep;
  Of(int n, J const& r, std::string const& url) { i = n; react = r; ep.reset(new endpoint(open<P>(this, &had, url))); }
  void say(J const& v) override { if (ep) ep->send_message(payload(v, static_cast<P*>(nullptr))); }
  void close() override { if (ep) ep->send_close(); }
  bool live() const override { return bool(ep); }
  void drop() override { ep.reset(); }
  J kept() const override { J r = arr(); for (auto const& p : had) r.append(show(p)); return r; }
};

static J complaints() { J r = arr(); auto e = js("pageErrors")(); int n = e["length"].template as<int>(); for (int i = 0; i < n; ++i) r.append(e[i].template as<std::string>()); return r; }
static int made() { return js("WebSocket")["all"]["length"].as<int>(); }
static emscripten::val peer(int i) { return js("WebSocket")["all"][i]; }

static void run(J const& ep) {
  std::vector<std::unique_ptr<End>> ends;
  js("page")(emscripten::val("")); js("forget")();
  complaints();
  emit(ev("reset"));
  nbdl::js::init();
  std::vector<int> seen;
  for (auto const& op : ep["ops"]) {
    std::string k = op["op"].asString();
    J e = op; e.removeMember("op"); e["ev"] = k;
    heard = arr();
    if (k == "start") {
      int before = made(), n = int(ends.size()) + 1;
      std::string url = text(op["url"]);
      if (op["kind"] == "bytes") ends.push_back(std::make_unique<Of<bytes>>(n, op["react"], url));
      else ends.push_back(std::make_unique<Of<json>>(n, op["react"], url));
      seen.push_back(0);
      e["made"] = made() - before; e["address"] = codes(peer(before)["url"].as<std::string>());
      e["heard"] = heard; e["errors"] = complaints();
      emit(e);
      continue;
    }
    int i = op["i"].asInt() - 1;
    if (i < 0 || i >= int(ends.size())) continue;
    End& x = *ends[i];
    auto p = peer(i);
    if (k == "open") p.call<void>("opened_");
    else if (k == "frame") p.call<void>("told_", op["f"]["t"] == "text", emscripten::val(hex(text(op["f"]["b"]))));
    else if (k == "gone") p.call<void>("gone_", op["code"].isInt() ? op["code"].asInt() : 1000);
    else if (k == "send") { if (p["readyState"].as<int>() == 0 || !x.live()) continue; for (auto const& v : op["ps"]) x.say(v); }
    else if (k == "close") { if (!x.live()) continue; x.close(); }
    else if (k == "drop") { if (!x.live()) continue; x.drop(); }
    else continue;
    e["heard"] = heard; e["errors"] = complaints();
    J sent = arr(), states = arr(), kept = arr();
    for (int n = 0; n < int(ends.size()); ++n) {
      auto q = peer(n), s = q["sent"];
      for (int c = s["length"].as<int>(); seen[n] < c; ++seen[n]) {
        auto m = s[seen[n]]; J f; f["i"] = n + 1;
        if (m["text"].isUndefined()) { f["t"] = "binary"; J b = arr(); int len = m["bytes"]["length"].as<int>(); for (int o = 0; o < len; ++o) b.append(m["bytes"][o].as<int>()); f["b"] = b; }
        else { f["t"] = "text"; f["b"] = codes(canonical(m["text"].as<std::string>())); }
        sent.append(f);
      }
      states.append(q["readyState"].as<int>());
      kept.append(ends[n]->kept());
    }
    e["sent"] = sent; e["states"] = states; e["kept"] = kept;
    emit(e);
  }
  ends.clear();
  J e = ev("end"); e["left"] = js("Object").call<emscripten::val>("keys", registry())["length"].as<int>(); emit(e);
}
int main() { return page_main(run); }
