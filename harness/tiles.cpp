// The game of tiles: by itself, and inside a context with an echoing server
#include "common.hpp"
#include <game.hpp>
using namespace vh;
namespace look {
  inline J heard;
  inline J cells(tiles::game const& g) { J a = arr(); for (int i = 0; i < g.width * g.height; ++i) a.append(int(g.board[i])); return a; }
  inline J rest(tiles::game const& g) { J a = arr(); for (int i = g.width * g.height; i < 64; ++i) if (g.board[i]) a.append(int(g.board[i])); return a; }
  struct observer { template <typename C> struct actor_impl; };
  template <typename C> struct observer::actor_impl { using hana_tag = observer; C context;
    template <typename A> actor_impl(nbdl::actor_initializer<C, A>&& p) : context(p.context) { } };
  struct context { static auto make_def() { return tiles::context<nbdl::echo_producer, observer>::make_def(); } };
  template <typename C> tiles::game seen(C& c) {
    tiles::game r{}; int n = 0;
    nbdl::match(c, tiles::game_path{}, [&](auto const& g) { r = g; ++n; });
    if (n != 1) std::abort();
    return r;
  }
}
namespace nbdl {
  template <> struct notify_state_change_impl<look::observer> {
    template <typename S, typename P> static void apply(S&& s, P&&) {
      if constexpr (std::is_same<std::decay_t<P>, tiles::game_path>::value) look::heard.append(look::cells(look::seen(s.context)));
      else look::heard.append("another path");
    } };
}
// The first tile of the last row that has no hole beside it: known to be moved below the board
// (known_findings.txt), only done where an episode is about that
static bool below(J const& ep, tiles::game const& g, int i) {
  int w = g.width, n = w * g.height;
  if (ep["below"].asBool() || i != n - w || g.board[i] == 0) return false;
  return !((w > 1 && g.board[i + 1] == 0) || (i >= w && g.board[i - w] == 0));
}
static void tell(J e, tiles::game const& g) { e["w"] = g.width; e["b"] = look::cells(g); e["rest"] = look::rest(g); emit(e); }
static void alone(J const& ep) {
  auto g = std::make_unique<tiles::game>();   // on the heap, where what is behind it is watched
  g->width = ep["w"].asInt(); g->height = ep["b"].size() / g->width; g->board = {};
  for (unsigned k = 0; k < ep["b"].size(); ++k) g->board[k] = ep["b"][k].asInt();
  tell(ev("reset"), *g);
  int k = 0;
  struct wide { int index; };
  for (auto const& op : ep["ops"]) {
    int i = op["i"].asInt();
    if (below(ep, *g, i)) continue;
    J e = ev("move"); e["i"] = i;
    if (i < 0 || i > 255 || ++k % 2) e["moved"] = tiles::detail::apply_game_move(*g, wide{i});
    else e["moved"] = tiles::detail::apply_game_move(*g, tiles::game_move{(unsigned char) i});
    tell(e, *g);
  }
}
static void served(J const& ep) {
  auto ctx = nbdl::make_context<look::context>(nbdl::actor("server"_s, nbdl::echo_producer{}));
  auto& state = ctx->template actor<1>();
  auto g = look::seen(state.context);
  tell(ev("reset"), g);
  int k = 0;
  namespace message = nbdl::message;
  for (auto const& op : ep["ops"]) {
    int i = op["i"].asInt();
    if (i < 0 || i > 255 || below(ep, g, i)) continue;
    look::heard = arr();
    if (op["from"].asInt() == 0) tiles::create_game_move(state, (unsigned char) i);
    else nbdl::apply_message(state.context, message::make_downstream_create(tiles::game_move_path(0, ++k), message::no_uid, tiles::game_move{(unsigned char) i}, message::no_is_confirmed));
    g = look::seen(state.context);
    J e = ev("sent"); e["i"] = i; e["heard"] = look::heard;
    tell(e, g);
  }
}
int main() { return main_loop([](J const& ep) { if (ep["served"].asBool()) served(ep); else alone(ep); }); }
