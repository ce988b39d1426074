// JavaScript in C++: evaluated by host.js
#pragma once
#include <json/json.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace page {
  using J = Json::Value;
  // what JavaScript threw
  struct thrown : std::runtime_error { using std::runtime_error::runtime_error; };

  struct Host {
    int in = -1, out = -1;
    std::string buffer;
    std::vector<int> released;

    Host() {
      char const* script = ::getenv("PAGE_HOST");
      if (!script) { std::fprintf(stderr, "PAGE_HOST is not set\n"); ::_exit(14); }
      int a[2], b[2];
      if (::pipe(a) || ::pipe(b)) ::_exit(14);
      if (::fork() == 0) {
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        int from = ::fcntl(a[0], F_DUPFD, 20), to = ::fcntl(b[1], F_DUPFD, 20);
        ::dup2(from, 3); ::dup2(to, 4);
        ::close(from); ::close(to); for (int fd : {a[0], a[1], b[0], b[1]}) if (fd > 4) ::close(fd);
        ::execlp("node", "node", script, (char*)nullptr);
        ::_exit(14);
      }
      ::close(a[0]); ::close(b[1]);
      in = b[0]; out = a[1];
    }
    void put(J line) {
      if (!released.empty()) { J r(Json::arrayValue); for (int h : released) r.append(h); released.clear(); line["rel"] = r; }
      static Json::StreamWriterBuilder w = [] { Json::StreamWriterBuilder w; w["indentation"] = ""; w["emitUTF8"] = true; w["precision"] = 17; return w; }();
      std::string s = Json::writeString(w, line) + "\n";
      for (std::size_t i = 0; i < s.size();) { auto n = ::write(out, s.data() + i, s.size() - i); if (n <= 0) ::_exit(14); i += n; }
    }
    J take() {
      for (;;) {
        auto i = buffer.find('\n');
        if (i != std::string::npos) {
          J j; Json::CharReaderBuilder b; std::string err;
          std::unique_ptr<Json::CharReader> r(b.newCharReader());
          if (!r->parse(buffer.data(), buffer.data() + i, &j, &err)) ::_exit(14);
          buffer.erase(0, i + 1);
          return j;
        }
        char part[65536];
        auto n = ::read(in, part, sizeof part);
        if (n <= 0) { std::fprintf(stderr, "the page ended\n"); ::_exit(14); }
        buffer.append(part, n);
      }
    }
    static J memory(J const& q) {
      std::string const o = q["mem"].asString();
      auto p = reinterpret_cast<unsigned char*>(std::uintptr_t(q["ptr"].isNull() ? 0 : q["ptr"].asInt64()));
      if (o == "read") {
        auto n = q["len"].asInt64();
        static char const* d = "0123456789abcdef";
        std::size_t m = n < 0 ? std::strlen(reinterpret_cast<char*>(p)) : n;
        std::string s;
        for (std::size_t i = 0; i < m; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
        return s;
      }
      if (o == "write") {
        std::string const h = q["hex"].asString();
        auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (std::size_t i = 0; 2 * i < h.size(); ++i) p[i] = v(h[2 * i]) << 4 | v(h[2 * i + 1]);
        return J();
      }
      if (o == "malloc") return Json::Int64(reinterpret_cast<std::uintptr_t>(std::malloc(q["len"].asInt64())));
      std::free(p);
      return J();
    }
    static J back(J const& q) {
      void* f = ::dlsym(RTLD_DEFAULT, q["cb"].asCString());
      if (!f) throw std::runtime_error("no function " + q["cb"].asString());
      std::intptr_t a[8] = {};
      for (unsigned i = 0; i < q["args"].size() && i < 8; ++i) a[i] = q["args"][i].asInt64();
      return Json::Int(reinterpret_cast<int (*)(std::intptr_t, std::intptr_t, std::intptr_t, std::intptr_t, std::intptr_t, std::intptr_t)>(f)(a[0], a[1], a[2], a[3], a[4], a[5]));
    }
    J request(J const& line) {
      put(line);
      for (;;) {
        J r = take();
        if (r.isMember("throw")) throw thrown(r["throw"].asString());
        if (r.isMember("ret")) return r["ret"];
        J a;
        a["answer"] = J();
        try { a["answer"] = r.isMember("mem") ? memory(r) : back(r); }
        catch (std::exception const& e) { a["throw"] = e.what(); }
        catch (...) { a["throw"] = "unknown"; }
        put(a);
      }
    }
  };
  inline Host& host() { static Host* h = new Host; return *h; }

  inline J op(char const* o) { J j; j["op"] = o; return j; }
  template <typename T> J number(T x) {
    if constexpr (std::is_pointer_v<T>) return Json::Int64(reinterpret_cast<std::uintptr_t>(x));
    else if constexpr (std::is_same_v<T, std::nullptr_t>) return 0;
    else if constexpr (std::is_floating_point_v<T>) return double(x);
    else if constexpr (std::is_enum_v<T>) return number(static_cast<std::underlying_type_t<T>>(x));
    else if constexpr (std::is_same_v<T, bool>) return int(x);
    // an unsigned word is seen as a signed one
    else if constexpr (sizeof(T) <= 4) return Json::Int64(static_cast<std::int32_t>(x));
    else return Json::Int64(x);
  }
  template <typename ...A> J eval(char const* want, char const* code, A const& ...args) {
    static std::map<std::pair<std::string, int>, int> known;
    auto k = std::make_pair(std::string(code), int(sizeof...(A)));
    auto it = known.find(k);
    if (it == known.end()) {
      J j = op("code"); j["code"] = code; j["n"] = int(sizeof...(A));
      it = known.emplace(k, host().request(j).asInt()).first;
    }
    J j = op("asm"); j["id"] = it->second; j["want"] = want;
    J as(Json::arrayValue); (as.append(number(std::decay_t<A const&>(args))), ...);
    j["args"] = as;
    return host().request(j);
  }
}

#define EM_ASM(code, ...) ((void)::page::eval("", #code __VA_OPT__(,) __VA_ARGS__))
#define EM_ASM_(code, ...) (::page::eval("i", #code __VA_OPT__(,) __VA_ARGS__).asInt())
#define EM_ASM_ARGS EM_ASM_
#define EM_ASM_INT(code, ...) (::page::eval("i", #code __VA_OPT__(,) __VA_ARGS__).asInt())
#define EM_ASM_INT_V(code) EM_ASM_INT(code)
#define EM_ASM_DOUBLE(code, ...) (::page::eval("d", #code __VA_OPT__(,) __VA_ARGS__).asDouble())
#define EM_ASM_PTR(code, ...) (reinterpret_cast<void*>(std::uintptr_t(::page::eval("d", #code __VA_OPT__(,) __VA_ARGS__).asDouble())))
#define MAIN_THREAD_EM_ASM EM_ASM
#define MAIN_THREAD_EM_ASM_INT EM_ASM_INT
