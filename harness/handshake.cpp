// The opening handshake of server and client endpoints, against a raw peer or each other.
#include "wsbase.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/detail/get_auth_token.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
#include <queue>
using namespace vh;
namespace ws = nbdl::websocket;

static bool g_log = true;
static void note(J const& e) { if (g_log) emit(e); }
static J codes(std::string const& s) { J a = arr(); for (unsigned char c : s) a.append(int(c)); return a; }
static std::string text(J const& a) { std::string s; for (auto const& x : a) s += char(x.asInt()); return s; }
static void got(std::string const& s, char const* k, std::string const& token = "") {
  J e = ev("got"); e["s"] = s; e["k"] = k; e["token"] = codes(token); note(e);
}
static auto handler(std::string s) {
  return nbdl::endpoint_handler(
    ws::event::on_ready = boost::hana::overload(
      [s](auto&) { got(s, "ready"); }
    , [s](auto&, nbdl::auth_token_t const& t) { got(s, "ready", t.value); })
  , ws::event::on_message = [s](auto&, auto const&) { got(s, "message"); }
  , ws::event::on_close = [s](auto&) { got(s, "close"); }
  , ws::event::on_bad_request = [s](auto&, auto const& ...) { got(s, "bad"); }
  , ws::event::on<std::error_code> = [s](auto&, auto const&) { got(s, "err"); });
}
template <typename Info> auto open(std::string s, Info info) {
  return nbdl::endpoint_open(std::move(info), std::queue<std::string>{}, handler(s));
}
using Server = decltype(open("", ws::server_endpoint_text{std::declval<tcp::socket>()}));
using Client = decltype(open("", ws::client_endpoint_text{std::declval<tcp::socket&>(), {""}, {""}}));

static void run(J const& ep) {
  g_log = true;
  auto cfg = ep["cfg"].asString();
  J r = ev("reset");
  r["origin"] = ep["origin"]; r["token"] = ep["token"];
  r["role"] = obj();
  r["role"]["a"] = cfg == "server" || cfg == "pair" ? "server" : cfg == "client" ? "client" : "raw";
  r["role"]["b"] = cfg == "pair" ? "client" : "raw";
  emit(r);
  if (cfg == "token") {
    for (auto const& c : ep["cookies"]) {
      J e = ev("token"); e["cookies"] = c; e["token"] = codes(ws::detail::get_auth_token(text(c)).value); emit(e);
    }
    return;
  }
  asio::io_context io;
  auto guard = asio::make_work_guard(io);
  auto [s, c] = connected(io);
  std::unique_ptr<tcp::socket> raw;
  auto watch = [&](tcp::socket& x, std::string side) {
    taps()[x.native_handle()] = { [side](char const* d, size_t n) {
      J e = ev("out"); e["s"] = side; e["b"] = codes(std::string(d, n)); note(e); }, [] { } };
  };
  auto info = [&](tcp::socket& x) { return ws::client_endpoint_text{x, {text(ep["token"])}, {text(ep["origin"])}}; };
  Server server; Client client;
  if (cfg == "server" || cfg == "pair") { watch(s, "a"); server = open("a", ws::server_endpoint_text{std::move(s)}); }
  if (cfg == "pair") { watch(c, "b"); client = open("b", info(c)); }
  if (cfg == "client") { watch(c, "a"); client = open("a", info(c)); raw = std::make_unique<tcp::socket>(std::move(s)); }
  if (cfg == "server") raw = std::make_unique<tcp::socket>(std::move(c));
  auto quiesce = [&] {
    int still = 0;
    while (still < 3) {
      long n = io.poll();
      if (raw) n += drain(raw->native_handle());
      bool q = !raw || outq(raw->native_handle()) == 0;
      still = n == 0 && q ? still + 1 : 0;
    }
  };
  for (auto const& o : ep["ops"]) {
    auto k = o["o"].asString();
    boost::system::error_code ec;
    if (k == "poll") { for (int i = 0; i < o["n"].asInt(); i++) io.poll_one(); }
    else if (k == "wait") quiesce();
    else if (!raw) continue;
    else if (k == "in") {
      J e = ev("in"); e["b"] = o["b"]; note(e);
      std::string d = text(o["b"]);
      asio::write(*raw, asio::buffer(d), ec);
    }
    else if (k == "eof") { note(ev("eof")); raw->shutdown(tcp::socket::shutdown_send, ec); }
    else if (k == "kill") {
      note(ev("kill"));
      raw->set_option(asio::socket_base::linger(true, 0), ec); raw->close(ec); raw.reset();
    }
    else ::_exit(4);
  }
  quiesce();
  for (int i = 0; cfg == "pair" && i < 30; i++) { ::usleep(20); quiesce(); }
  note(ev("settled"));
  g_log = false;
  // the handshake is over before the endpoints go
  raw.reset();
  if (server) server->stop();
  if (client) client->stop();
  for (int i = 0; i < 10; i++) { quiesce(); }
  taps().clear();
}
int main() { emit_limit() = 3000; return main_loop(run); }
