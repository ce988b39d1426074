// Sockets for the websocket harnesses: loopback pairs on ephemeral ports, everything in one
// thread, and the bytes an endpoint puts on the wire recorded at the system call.
#pragma once
#include "common.hpp"
#include <boost/asio.hpp>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <linux/sockios.h>
#include <fcntl.h>
#include <poll.h>

namespace vh {
  namespace asio = boost::asio;
  using tcp = asio::ip::tcp;

  // payloads travel through the logs as runs: [[byte, count], ...]
  template <typename C> inline J runs(C const& p) {
    J r = arr();
    size_t i = 0, n = p.size();
    while (i < n) {
      size_t k = i;
      while (k < n && p[k] == p[i]) k++;
      J x = arr(); x.append(int(static_cast<unsigned char>(p[i]))); x.append(Json::UInt64(k - i));
      r.append(x); i = k;
    }
    return r;
  }
  inline std::string bytes(J const& r) {
    std::string s;
    for (auto const& x : r) s.append(x[1].asUInt64(), char(x[0].asInt()));
    return s;
  }

  struct tap_t { std::function<void(char const*, size_t)> wrote; std::function<void()> stalled; };
  inline std::map<int, tap_t>& taps() { static std::map<int, tap_t> t; return t; }

  inline std::pair<tcp::socket, tcp::socket> connected(asio::io_context& io, int sndbuf = 0) {
    tcp::acceptor acc(io);
    tcp::endpoint any(asio::ip::address_v4::loopback(), 0);
    acc.open(any.protocol());
    if (sndbuf) acc.set_option(asio::socket_base::receive_buffer_size(sndbuf));
    acc.bind(any); acc.listen();
    tcp::socket c(io), s(io);
    c.open(any.protocol());
    if (sndbuf) c.set_option(asio::socket_base::receive_buffer_size(sndbuf));
    c.connect(acc.local_endpoint());
    acc.accept(s);
    for (auto* x : {&c, &s}) {
      x->set_option(tcp::no_delay(true));
      if (sndbuf) x->set_option(asio::socket_base::send_buffer_size(sndbuf));
    }
    return {std::move(s), std::move(c)};
  }
  inline int outq(int fd) { int v = 0; return ::ioctl(fd, SIOCOUTQ, &v) == 0 ? v : 0; }

  // reads whatever is there; returns the number of bytes, -1 at end of stream
  inline long drain(int fd, std::string* into = nullptr) {
    char buf[65536]; long n = 0;
    for (;;) {
      auto k = ::recv(fd, buf, sizeof buf, MSG_DONTWAIT);
      if (k <= 0) return n;
      if (into) into->append(buf, k);
      n += k;
    }
  }
}

extern "C" {
  ssize_t __real_sendmsg(int, msghdr const*, int);
  ssize_t __real_send(int, void const*, size_t, int);
  ssize_t __wrap_sendmsg(int fd, msghdr const* m, int flags) {
    ssize_t n = __real_sendmsg(fd, m, flags);
    int e = errno;
    auto it = vh::taps().find(fd);
    if (it != vh::taps().end()) {
      if (n > 0) {
        std::string s; size_t left = n;
        for (size_t i = 0; i < m->msg_iovlen && left; i++) {
          size_t k = std::min(left, m->msg_iov[i].iov_len);
          s.append(static_cast<char const*>(m->msg_iov[i].iov_base), k); left -= k;
        }
        it->second.wrote(s.data(), s.size());
      } else if (n < 0 && (e == EAGAIN || e == EWOULDBLOCK)) it->second.stalled();
    }
    errno = e;
    return n;
  }
  ssize_t __wrap_send(int fd, void const* b, size_t len, int flags) {
    ssize_t n = __real_send(fd, b, len, flags);
    int e = errno;
    auto it = vh::taps().find(fd);
    if (it != vh::taps().end()) {
      if (n > 0) it->second.wrote(static_cast<char const*>(b), n);
      else if (n < 0 && (e == EAGAIN || e == EWOULDBLOCK)) it->second.stalled();
    }
    errno = e;
    return n;
  }
}
