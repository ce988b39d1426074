// Handles to values of JavaScript, callbacks, and promises made of JavaScript.
#include "page.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/js.hpp>
#include <nbdl/run_async.hpp>
#include <boost/hana/equal.hpp>
#include <algorithm>
#include <list>
#include <memory>
#include <optional>
using namespace vh;
namespace hana = boost::hana;
using nbdl::js::val;
using nbdl::js::get_handle;

static emscripten::val js(char const* n) { return emscripten::val::global(n); }
static J complaints() { J r = arr(); auto e = js("pageErrors")(); int n = e["length"].template as<int>(); for (int i = 0; i < n; ++i) r.append(e[i].template as<std::string>()); return r; }
template <typename V> int which(V const& v) { return EM_ASM_INT({ return things.indexOf(Module.NBDL_DETAIL_JS_GET($0)); }, get_handle(v)); }
template <typename V> void become(V const& v, int t) { EM_ASM_({ Module.NBDL_DETAIL_JS_SET($0, things[$1]); }, get_handle(v), t); }
static int left() { return js("Object").call<emscripten::val>("keys", emscripten::val::module_property("nbdl_detail_json_val"))["length"].as<int>(); }

static J heard, calls;
static void hear(int p, int s, char const* how, int v) { J h; h["p"] = p; h["s"] = s; h["how"] = how; h["v"] = v; heard.append(h); }
static void current(int p, int s) { js("promised").set("p", emscripten::val(p)); js("promised").set("s", emscripten::val(s)); }

extern "C" {
  static void started2(int a, int b, int x, int y) { EM_ASM_({ promised.started(Module.NBDL_DETAIL_JS_GET($0), Module.NBDL_DETAIL_JS_GET($1), Module.NBDL_DETAIL_JS_GET($2), Module.NBDL_DETAIL_JS_GET($3)); }, a, b, x, y); }
  static void started3(int a, int b, int x, int y, int z) { EM_ASM_({ promised.started(Module.NBDL_DETAIL_JS_GET($0), Module.NBDL_DETAIL_JS_GET($1), Module.NBDL_DETAIL_JS_GET($2), Module.NBDL_DETAIL_JS_GET($3), Module.NBDL_DETAIL_JS_GET($4)); }, a, b, x, y, z); }
  static void started8(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { page::eval("", "{ promised.started(...[$0, $1, $2, $3, $4, $5, $6, $7, $8, $9].map(Module.NBDL_DETAIL_JS_GET)); }", a, b, c, d, e, f, g, h, i, j); }
}
// the stages of a promise after its first
template <typename First> void go(int p, int stages, First first) {
  auto then = [p](int s) { return [p, s](val v) { hear(p, s, "then", which(v)); if (s == 1) current(p, 2); }; };
  auto fail = nbdl::catch_([p](auto const& v) { hear(p, js("promised")["at"][p].template as<int>(), "catch", which(v)); });
  if (stages == 1) nbdl::run_async(hana::make_tuple(first, then(1), fail));
  else nbdl::run_async(hana::make_tuple(first, then(1), NBDL_JS_PROMISE(function(resolve, reject) { promised.started(resolve, reject); }), then(2), fail));
}
static void start(int p, J const& op, std::vector<std::optional<val>>& slots) {
  int n = int(op["captures"].size()), stages = op["stages"].asInt(); bool c = op["c"].asBool();
  auto at = [&](int i) -> val const& { return *slots[op["captures"][i].asInt() - 1]; };
  current(p, 1);
  if (n == 0) return go(p, stages, NBDL_JS_PROMISE(function(resolve, reject) { promised.started(resolve, reject); }));
  if (n == 1) { val const& x = at(0); return go(p, stages, NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { promised.started(resolve, reject, x); }, x)); }
  if (n == 2) { val const& x = at(0); val const& y = at(1);
    if (c) return go(p, stages, NBDL_JS_PROMISE_C_FUNC(started2, x, y));
    return go(p, stages, NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { promised.started(resolve, reject, x, y); }, x, y)); }
  if (n == 3) { val const& x = at(0); val const& y = at(1); val const& z = at(2);
    if (c) return go(p, stages, NBDL_JS_PROMISE_C_FUNC(started3, x, y, z));
    return go(p, stages, NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { promised.started(resolve, reject, x, y, z); }, x, y, z)); }
  val const& q = at(0); val const& r = at(1); val const& s = at(2); val const& t = at(3); val const& u = at(4); val const& v = at(5); val const& w = at(6); val const& x = at(7);
  if (c) return go(p, stages, NBDL_JS_PROMISE_C_FUNC(started8, q, r, s, t, u, v, w, x));
  go(p, stages, NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { promised.started(resolve, reject, q, r, s, t, u, v, w, x); }, q, r, s, t, u, v, w, x));
}

static void run(J const& ep) {
  js("page")(emscripten::val("<p id=\"a\"></p><div><b id=\"b-c\"></b></div>")); js("forget")();
  complaints();
  nbdl::js::init();
  page::eval("", R"({
    globalThis.things = [undefined, { x: 1 }, {}, [], 'a', 0, null, true, false, '', function() { }, 5, document.getElementById('a'), document.getElementById('b-c')];
    globalThis.promised = { p: 0, s: 0, plan: [], of: [], at: [], captured: [], again: false,
      started: function(resolve, reject, ...values) {
        var p = promised.p, s = promised.s;
        if (s === 1) promised.captured = values;
        (promised.of[p] = promised.of[p] || [])[s] = { then: resolve, catch: reject };
        promised.at[p] = s;
        var now = promised.plan.shift();
        if (now) { promised.of[p][s][now.how](things[now.v]); if (promised.again) { resolve(things[1]); reject(things[2]); resolve(things[3]); } }
      } };
  })");
  { J r = ev("reset"); r["slots"] = ep["slots"]; r["cbs"] = ep["cbs"]; emit(r); }
  {
    std::vector<std::optional<val>> slots(ep["slots"].asInt());
    std::vector<val> list;
    std::vector<std::unique_ptr<nbdl::js::callback_t>> cbs(ep["cbs"].asInt());
    int proms = 0;
    auto plan = [&](J const& op) {
      EM_ASM_({ promised.plan = []; promised.again = $0; }, op["again"].asBool());
      for (auto const& x : op["plan"]) { page::eval("", "{ promised.plan.push({ how: $0 ? 'then' : 'catch', v: $1 }); }", x["how"] == "then", x["v"].asInt()); }
    };
    for (auto const& op : ep["ops"]) {
      std::string k = op["op"].asString();
      J e = op; e.removeMember("op"); e["ev"] = k;
      heard = arr(); calls = arr();
      int i = op["i"].asInt() - 1, j = op["j"].asInt() - 1, c = op["c"].asInt() - 1, at = op["k"].asInt() - 1;
      auto has = [&](int n) { return n >= 0 && n < int(slots.size()) && slots[n]; };
      auto& slot = slots[i < 0 ? 0 : i];
      if (k == "fresh") slot.emplace();
      else if (k == "set" && has(i)) become(*slot, op["v"].asInt());
      else if (k == "copy" && has(j)) { if (has(i)) *slot = *slots[j]; else slot.emplace(*slots[j]); }
      else if (k == "move" && has(j)) { if (has(i)) *slot = std::move(*slots[j]); else slot.emplace(std::move(*slots[j])); }
      else if (k == "swap" && has(i) && has(j)) { using std::swap; swap(*slots[i], *slots[j]); }
      else if (k == "gone" && has(i)) slot.reset();
      else if (k == "transform" && has(i)) {
        EM_ASM_({ promised.next = $0; }, op["v"].asInt());
        NBDL_JS_TRANSFORM(*slot, (function(x) { promised.was = things.indexOf(x); return things[promised.next]; }));
        e["was"] = arr(); e["was"].append(js("promised")["was"].as<int>()); }
      else if (k == "equal" && has(i) && has(j)) e["is"] = bool(hana::equal(*slots[i], *slots[j]));
      else if (k == "element") {
        int v = op["v"].asInt();
        val x = v == 12 ? nbdl::js::get_element_by_id(BOOST_HANA_STRING("a")) : v == 13 ? nbdl::js::get_element_by_id(BOOST_HANA_STRING("b-c")) : nbdl::js::get_element_by_id(BOOST_HANA_STRING("b"));
        if (has(i)) *slot = x; else slot.emplace(x); }
      else if (k == "insert" && has(i) && at <= int(list.size())) { if (at == int(list.size())) list.push_back(*slot); else list.insert(list.begin() + at, *slot); }
      else if (k == "take" && at < int(list.size())) {
        if (has(i)) *slot = std::move(list[at]); else slot.emplace(std::move(list[at]));
        list.erase(list.begin() + at); }
      else if (k == "reverse") std::reverse(list.begin(), list.end());
      else if (k == "callback") {
        auto put = [c, i, &slots](auto const& v) {
          J h; h["c"] = c + 1; h["v"] = which(v); calls.append(h);
          if (slots[i]) *slots[i] = v; else slots[i].emplace(v); };
        if (op["by"].asBool()) cbs[c] = std::make_unique<nbdl::js::callback_t>(nbdl::js::callback([put](val v) { put(v); }));
        else cbs[c] = std::make_unique<nbdl::js::callback_t>(nbdl::js::callback(put)); }
      else if (k == "cbgone" && cbs[c]) cbs[c].reset();
      else if (k == "cbmove" && cbs[c]) { auto x = std::make_unique<nbdl::js::callback_t>(std::move(*cbs[c])); cbs[c] = std::move(x); }
      else if (k == "call" && cbs[c]) {
        if (op["by"].asBool()) { val f{*cbs[c]}; EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)(things[$1]); }, get_handle(f), op["v"].asInt()); }
        else EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)(things[$1]); }, get_handle(*cbs[c]), op["v"].asInt()); }
      else if (k == "promise") {
        bool ok = true; for (auto const& x : op["captures"]) ok = ok && has(x.asInt() - 1);
        if (!ok) continue;
        plan(op);
        start(++proms, op, slots);
        e["captured"] = arr();
        for (int n = 0; n < int(op["captures"].size()); ++n) e["captured"].append(EM_ASM_INT({ return things.indexOf(promised.captured[$0]); }, n)); }
      else if (k == "settle" && op["p"].asInt() <= proms) {
        int p = op["p"].asInt(), s = op["s"].asInt();
        if (!EM_ASM_INT({ return !!promised.of[$0][$1]; }, p, s)) continue;
        plan(op);
        EM_ASM_({ promised.of[$0][$1][$2 ? 'then' : 'catch'](things[$3]); }, p, s, op["how"] == "then", op["v"].asInt()); }
      else continue;
      J ss = arr(), l = arr();
      for (auto const& x : slots) ss.append(x ? which(*x) : -1);
      for (auto const& x : list) { l.append(which(x)); }
      e["slots"] = ss; e["list"] = l; e["heard"] = heard; e["calls"] = calls; e["errors"] = complaints();
      emit(e);
    }
    // those that are pending end
    EM_ASM({ promised.plan = []; });
    heard = arr();
    for (int p = 1; p <= proms; ++p) { EM_ASM_({ promised.of[$0][promised.at[$0]].catch(undefined); }, p); }
  }
  J e = ev("end"); e["left"] = left(); emit(e);
}
int main() { return page_main(run); }
