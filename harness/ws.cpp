// Websocket endpoints against a raw peer or against each other. Every user operation, handler
// call and frame on the wire is recorded in the order it happened.
#include "wsbase.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
#include <sys/mman.h>
#include <queue>
using namespace vh;
namespace ws = nbdl::websocket;

// memory that is only there once it is touched, for frames that announce gigabytes
struct big_payload {
  using value_type = char; using iterator = char*; using const_iterator = char const*;
  char* d = nullptr; size_t n = 0, cap = 0;
  big_payload() = default;
  template <typename I> big_payload(I b, I e) { resize(std::distance(b, e)); std::copy(b, e, d); }
  big_payload(big_payload const& o) : big_payload(o.begin(), o.end()) { }
  big_payload& operator=(big_payload const& o) { if (this != &o) { resize(o.n); std::copy(o.begin(), o.end(), d); } return *this; }
  ~big_payload() { if (d) ::munmap(d, cap); }
  void resize(size_t m, char = 0) {
    if (m > cap) {
      if (m > (1ull << 41)) throw std::bad_alloc{};
      size_t c = m + 4096;
      void* p = ::mmap(nullptr, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) throw std::bad_alloc{};
      std::copy(d, d + n, static_cast<char*>(p));
      if (d) ::munmap(d, cap);
      d = static_cast<char*>(p); cap = c;
    }
    n = m;
  }
  void clear() { n = 0; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  char* data() { return d; } char const* data() const { return d; }
  char* begin() { return d; } char* end() { return d + n; }
  char const* begin() const { return d; } char const* end() const { return d + n; }
  char& operator[](size_t i) { return d[i]; } char const& operator[](size_t i) const { return d[i]; }
};

static bool g_log = true;
static void note(J const& e) { if (g_log) emit(e); }

// takes the wire apart as it is written
struct wire_parser {
  std::string side; bool on = false;
  std::string h; size_t need = 2; bool in_payload = false; uint64_t left = 0; std::string p;
  bool begun = false;
  void feed(char const* d, size_t n) {
    if (!on) return;
    for (size_t i = 0; i < n; ) {
      if (!in_payload) {
        if (!begun) {
          begun = true;
          J e = ev("fb"); e["s"] = side; e["op"] = d[i] & 15; e["fin"] = (d[i] & 0x80) != 0;
          e["rsv"] = (d[i] & 0x70) != 0; note(e);
        }
        h += d[i++];
        if (h.size() == 2) {
          int c = h[1] & 127;
          need = 2 + (c == 126 ? 2 : c == 127 ? 8 : 0) + ((h[1] & 0x80) ? 4 : 0);
        }
        if (h.size() == need) {
          int c = h[1] & 127; left = c;
          if (c >= 126) { left = 0; for (int k = 0; k < (c == 126 ? 2 : 8); k++) left = left << 8 | (unsigned char)h[2 + k]; }
          in_payload = true; p.clear();
        }
      } else {
        size_t k = std::min<uint64_t>(left, n - i);
        p.append(d + i, k); i += k; left -= k;
      }
      if (in_payload && left == 0) {
        if (h[1] & 0x80) for (size_t k = 0; k < p.size(); k++) p[k] ^= h[need - 4 + k % 4];
        J e = ev("fr"); e["s"] = side; e["op"] = h[0] & 15; e["fin"] = (h[0] & 0x80) != 0; e["p"] = runs(p);
        note(e);
        h.clear(); need = 2; in_payload = false; begun = false;
      }
    }
  }
};

static std::string const request =
  "GET / HTTP/1.1\r\nHost: x\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nCookies: nbdl_auth=t\r\n\r\n";
static std::string const response =
  "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
  "Sec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n";

struct EP {
  virtual ~EP() = default;
  virtual bool alive() = 0;
  virtual void send(std::string const&) = 0;
  virtual void close() = 0;
  virtual void start() = 0;
  virtual void stop() = 0;
  virtual void drop() = 0;
};

struct World {
  asio::io_context io;
  asio::executor_work_guard<asio::io_context::executor_type> guard = asio::make_work_guard(io);
  J react;
  std::map<std::string, std::unique_ptr<EP>> eps;
  std::map<std::string, wire_parser> wires;
  std::map<std::string, bool> ready;
  std::map<std::string, int> got;
  std::vector<int> fds;        // duplicates, to look at the send queues
  std::unique_ptr<tcp::socket> raw; bool reading = true;

  void op(J const& o) {
    std::string s = o.isMember("s") ? o["s"].asString() : "a";
    std::string k = o["o"].asString();
    if (k == "send" || k == "start" || k == "close" || k == "stop" || k == "drop") {
      if (!eps.count(s) || !eps[s]->alive()) return;
      J e = ev("do"); e["s"] = s; e["o"] = k;
      e["p"] = arr();
      if (k == "send") e["p"] = o["p"];
      note(e);
      auto& x = *eps[s];
      if (k == "send") x.send(bytes(o["p"]));
      else if (k == "start") x.start();
      else if (k == "close") x.close();
      else if (k == "stop") x.stop();
      else x.drop();
    }
    else if (k == "step") { for (int i = 0; i < o["n"].asInt(); i++) { io.poll_one(); flush(); if (reading && raw) drain(raw->native_handle()); } }
    else if (k == "hs") raw_write(o["client"].asBool() ? response : request);
    else if (k == "noread") reading = false;
    else if (k == "read") { reading = true; if (raw) drain(raw->native_handle()); }
    else if (k == "frame") raw_frame(o);
    else if (k == "raw") { for (auto const& f : o["frames"]) {   // bytes that are not frames of their own
      std::string p = bytes(f[1]); raw_write(std::string(1, char(0x80 | f[0].asInt())) + char(p.size()) + p); io.poll(); } }
    else if (k == "cut") { J e = ev("cut"); e["s"] = "b"; note(e); cut_after = true; flush(); }
    else if (k == "kill") { J e = ev("kill"); e["s"] = "b"; note(e); boost::system::error_code c;
      raw->set_option(asio::socket_base::linger(true, 0), c); raw->close(c); raw.reset(); }
    else if (k == "settle") settle();
    else ::_exit(4);
  }
  // what the raw peer writes waits here while the other side does not read
  std::string out; bool cut_after = false;
  long flush() {
    if (!raw) { out.clear(); return 0; }
    long done = 0;
    while (!out.empty()) {
      auto n = ::send(raw->native_handle(), out.data(), out.size(), MSG_DONTWAIT | MSG_NOSIGNAL);
      if (n > 0) { out.erase(0, n); done += n; continue; }
      if (errno != EAGAIN) out.clear();
      break;
    }
    if (out.empty() && cut_after) { cut_after = false; boost::system::error_code c; raw->shutdown(tcp::socket::shutdown_send, c); done++; }
    return done;
  }
  void raw_write(std::string const& d) { out += d; flush(); }
  // a frame of the raw peer: header options and payload, delivered in the given pieces
  void raw_frame(J const& o) {
    if (!raw) return;
    std::string p = bytes(o["p"]);
    uint64_t len = o.isMember("len") ? o["len"].asUInt64() : p.size();
    int enc = o.isMember("enc") ? o["enc"].asInt() : 0;
    if (enc == 0 && len > 125) enc = 1;
    if (enc == 1 && len > 65535) enc = 2;
    std::string b;
    b += char((o["fin"].asBool() ? 0x80 : 0) | o["op"].asInt());
    bool m = o["mask"].size() == 4;
    b += char((m ? 0x80 : 0) | (enc == 0 ? len : enc == 1 ? 126 : 127));
    if (enc) for (int k = enc == 1 ? 1 : 7; k >= 0; k--) b += char(len >> (8 * k));
    if (m) {
      for (auto const& x : o["mask"]) b += char(x.asInt());
      for (size_t i = 0; i < p.size(); i++) p[i] ^= char(o["mask"][int(i % 4)].asInt());
    }
    b += p;
    bool whole = !o.isMember("keep") && len == p.size();
    if (!whole && o.isMember("keep")) b.resize(std::min<size_t>(b.size() - 1, o["keep"].asUInt()));
    size_t at = 0;
    J e = ev("fb"); e["s"] = "b"; e["op"] = o["op"]; e["fin"] = o["fin"]; e["rsv"] = false;
    if (whole) note(e);
    for (auto const& c : o["cuts"]) {
      size_t k = std::min<size_t>(c.asUInt(), b.size() - at);
      if (at + k >= b.size()) break;
      raw_write(b.substr(at, k)); at += k;
      io.poll();
    }
    if (whole) {
      e["ev"] = "fr"; e.removeMember("rsv"); e["p"] = runs(bytes(o["p"])); note(e);
    }
    raw_write(b.substr(at));
  }
  void quiesce() {
    int still = 0, stuck = 0;
    while (still < 3 && stuck < 1000) {
      long n = io.poll() + flush();
      if (raw && reading) n += drain(raw->native_handle());
      bool q = out.empty();
      if (reading) for (int fd : fds) q = q && outq(fd) == 0;
      if (n == 0 && q) still++; else still = 0;
      if (n == 0 && !q) { stuck++; ::usleep(20); } else stuck = 0;   // stuck: nobody reads
    }
  }
  void settle() { reading = true; quiesce(); note(ev("settled")); }
  void on(std::string const& s, char const* k, J p) {
    J e = ev("got"); e["s"] = s; e["k"] = k; e["p"] = p; note(e);
    if (!g_log) return;
    J todo;
    if (std::string(k) == "ready") todo = react[s]["ready"];
    else if (std::string(k) == "msg") { J l = react[s]["msgs"]; int i = got[s]++; if (i < int(l.size())) todo = l[i]; }
    else if (std::string(k) == "close") todo = react[s]["close"];
    for (auto const& o : todo) op(o);
  }
};

template <typename P> P to_payload(std::string const& s) { return P(s.begin(), s.end()); }

template <typename P, typename Info> struct EPImpl : EP {
  static auto open(World& w, std::string s, Info info) {
    return nbdl::endpoint_open(std::move(info), std::queue<P>{}, nbdl::endpoint_handler(
      ws::event::on_ready = [&w, s](auto&, auto const& ...) { w.ready[s] = true; w.wires[s].on = true; w.on(s, "ready", arr()); }
    , ws::event::on_message = [&w, s](auto&, auto const& m) { w.on(s, "msg", runs(m)); }
    , ws::event::on_close = [&w, s](auto&) { w.on(s, "close", arr()); }
    , ws::event::on_bad_request = [&w, s](auto&, auto const& ...) { w.on(s, "bad", arr()); }
    , ws::event::on<std::error_code> = [&w, s](auto&, auto const&) { w.on(s, "err", arr()); }));
  }
  using Ptr = decltype(open(std::declval<World&>(), std::string{}, std::declval<Info>()));
  Ptr sp; typename Ptr::weak_type wp;
  EPImpl(World& w, std::string s, Info info) : sp(open(w, s, std::move(info))), wp(sp) { }
  bool alive() override { return !wp.expired(); }
  void send(std::string const& p) override { auto x = wp.lock(); P m = to_payload<P>(p); nbdl::endpoint_send_message(*x, m); }
  void close() override { auto x = wp.lock(); nbdl::endpoint_send_close(*x); }
  void start() override { auto x = wp.lock(); x->start_messaging(); }
  void stop() override { auto x = wp.lock(); x->stop(); }
  void drop() override { sp.reset(); }
};

template <typename Info> void add(World& w, std::string s, tcp::socket& sock, Info make) {
  int fd = sock.native_handle();
  w.fds.push_back(::dup(fd));
  w.wires[s].side = s;
  taps()[fd] = { [&w, s](char const* d, size_t n) { w.wires[s].feed(d, n); },
                 [&w, s] { if (w.wires[s].on) { J e = ev("stall"); e["s"] = s; note(e); } } };
  make();
}

void run(J const& ep) {
  g_log = true;
  auto cfg = ep["cfg"].asString();
  auto wp = std::make_unique<World>();
  World& w = *wp;
  w.react = ep["react"];
  J r = ev("reset");
  r["cfg"] = cfg;
  J ty = obj();
  auto [s, c] = connected(w.io, ep.isMember("sndbuf") ? ep["sndbuf"].asInt() : 0);
  auto server_text = [&] { add(w, "a", s, [&] {
    w.eps["a"] = std::make_unique<EPImpl<std::string, ws::server_endpoint_text>>(w, "a", ws::server_endpoint_text{std::move(s)}); }); ty["a"] = 1; };
#ifndef SMALL
  auto server_big = [&] { add(w, "a", s, [&] {
    w.eps["a"] = std::make_unique<EPImpl<big_payload, ws::server_endpoint>>(w, "a", ws::server_endpoint{std::move(s)}); }); ty["a"] = 2; };
#endif
  auto client_bin = [&](std::string side) { add(w, side, c, [&] {
    w.eps[side] = std::make_unique<EPImpl<std::string, ws::client_endpoint>>(w, side, ws::client_endpoint{c, {"t"}, {"o"}}); }); ty[side] = 2; };
  ty["a"] = 0; ty["b"] = 0;
  if (cfg == "server" || cfg == "pair") server_text();
#ifndef SMALL
  else if (cfg == "big") server_big();
#endif
  else if (cfg == "client") client_bin("a");
  else ::_exit(4);
  if (cfg == "pair") client_bin("b");
  else if (cfg == "client") { w.raw = std::make_unique<tcp::socket>(std::move(s)); }
  else { w.raw = std::make_unique<tcp::socket>(std::move(c)); }
  r["ty"] = ty;
  emit(r);
  if (w.raw) {
    w.fds.push_back(::dup(w.raw->native_handle()));
    if (!ep["late"].asBool()) w.raw_write(cfg == "client" ? response : request);
  }
  for (int i = 0; i < 100000 && !ep["late"].asBool(); i++) {
    w.io.poll();
    if (w.raw) drain(w.raw->native_handle());
    bool all = true;
    for (auto& [k, e] : w.eps) all = all && w.ready[k];
    if (all) break;
    if (i > 100) ::usleep(20);
  }
  for (auto& [k, e] : w.eps) if (!w.ready[k] && !ep["late"].asBool()) { J e2 = ev("notready"); emit(e2); }
  for (auto const& o : ep["ops"]) w.op(o);
  w.settle();
  g_log = false;
  w.reading = true;
  // let everything end, then take it down
  for (auto& [k, e] : w.eps) if (e->alive()) e->stop();
  for (int i = 0; i < 5; i++) { w.io.poll(); if (w.raw) drain(w.raw->native_handle()); }
  w.raw.reset();
  for (int i = 0; i < 5; i++) w.io.poll();
  taps().clear();
  w.eps.clear();
  for (int fd : w.fds) ::close(fd);
}
int main() { emit_limit() = 20000; return main_loop(run); }
