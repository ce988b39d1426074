// Senders of websocket messages with bounds on their frames, and everything that goes out.
#include "wsbase.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/message_sender.hpp>
#include <boost/hana.hpp>
#include <optional>
namespace hana = boost::hana;
namespace ws = nbdl::websocket::detail;
using namespace vh;

// the frames a stream of bytes is made of
static bool frames(std::string& s) {
  auto at = [&](size_t i) { return (unsigned char)s[i]; };
  while (s.size() >= 2) {
    uint64_t n = at(1) & 127; size_t h = 2, k = n == 126 ? 2 : n == 127 ? 8 : 0; int form = k == 2 ? 16 : k == 8 ? 64 : 7;
    unsigned char mask[4] = {}; bool masked = at(1) & 128;
    if (s.size() < h + k + masked * 4) return false;
    if (k) { n = 0; for (size_t i = 0; i < k; i++) n = n << 8 | at(h + i); }
    h += k;
    if (masked) { for (int i = 0; i < 4; i++) mask[i] = at(h + i); h += 4; }
    if (n > s.size() - h) return false;
    std::string p = s.substr(h, n);
    for (size_t i = 0; i < p.size(); i++) p[i] ^= mask[i % 4];
    J e = ev("frame"); e["op"] = at(0) & 15; e["fin"] = (at(0) & 128) != 0; e["plain"] = (at(0) & 112) == 0;
    e["form"] = form; e["p"] = runs(p); emit(e);
    s.erase(0, h + n);
  }
  return s.empty();
}

template <typename Payload, size_t max> void with(J const& ep) {
  asio::io_context io;
  auto [server, client] = connected(io, ep["small"].asBool() ? 4096 : 0);
  auto sender = ws::message_sender<Payload, hana::size_t<max>>(server);
  client.non_blocking(true); server.non_blocking(true);
  bool broken = false;
  for (auto const& op : ep["ops"]) {
    if (op["o"] == "break") {
      struct linger l = {1, 0}; ::setsockopt(client.native_handle(), SOL_SOCKET, SO_LINGER, &l, sizeof l);
      client.close(); broken = true; emit(ev("break")); continue;
    }
    std::string p = bytes(op["p"]); int code = op["op"].asInt();
    J e = ev("send"); e["op"] = code; e["p"] = op["p"]; emit(e);
    sender.payload() = Payload(p.begin(), p.end());
    std::vector<std::string> told;
    auto go = [&](auto send) {
      nbdl::run_async(hana::make_tuple(nbdl::promise(send), [&](auto& x) { told.push_back(&x == &sender ? "sent" : "sent of another"); },
        nbdl::catch_([&](std::error_code) { told.push_back("failed"); })), sender);
    };
    if (code == 1) go(ws::send_text); if (code == 2) go(ws::send_binary); if (code == 8) go(ws::send_close);
    if (code == 9) go(ws::send_ping); if (code == 10) go(ws::send_pong);
    std::string in; int idle = 0;
    for (long turns = 0; turns < 2000000 && idle < 3; turns++) {
      io.restart();
      size_t did = io.poll();
      long got = broken ? 0 : drain(client.native_handle(), &in);
      bool waiting = told.empty() || outq(server.native_handle()) > 0;
      if (did || got > 0) idle = 0;
      else if (!waiting) idle++;
      else if (turns % 16 == 15) { pollfd f{client.native_handle(), POLLIN, 0}; if (!broken) ::poll(&f, 1, 1); if (turns > 20000) idle++; }
    }
    if (!broken && !frames(in)) { J x = ev("torn"); x["left"] = Json::UInt64(in.size()); emit(x); }
    for (auto const& t : told) emit(ev(t.c_str()));
    if (broken) break;      // what the sockets make of a second try is not the sender's
  }
  emit(ev("settled"));
}
template <typename Payload> void by(J const& ep) {
  switch (ep["max"].asInt()) {
    case 1: return with<Payload, 1>(ep); case 5: return with<Payload, 5>(ep); case 125: return with<Payload, 125>(ep);
    case 126: return with<Payload, 126>(ep); case 1000: return with<Payload, 1000>(ep); case 65535: return with<Payload, 65535>(ep);
    case 65536: return with<Payload, 65536>(ep); case 100000: return with<Payload, 100000>(ep);
  }
}
int main() {
  ::signal(SIGPIPE, SIG_IGN);
  emit_limit() = 1000000;
  return main_loop([](J const& ep) {
    J r = ev("reset"); r["max"] = ep["max"]; emit(r);
    if (ep["bytes"].asBool()) by<std::vector<unsigned char>>(ep); else by<std::string>(ep);
  });
}
