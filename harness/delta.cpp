// Deltas of records: a register machine over one record and one delta.
#include "records.hpp"
using namespace vh;

template <typename R> void run(J const& ep) {
  R x = rec::make<R>(ep["x"]);
  nbdl::delta<R> d{};
  J r = ev("reset"); r["x"] = rec::show(x); r["d"] = rec::show_delta(d); emit(r);
  for (auto const& op : ep["ops"]) {
    auto o = op["o"].asString();
    J e = ev("step"); e["o"] = o;
    if (op.isMember("y")) e["y"] = op["y"];
    if (op.isMember("z")) e["z"] = op["z"];
    if (o == "set") x = rec::make<R>(op["y"]);
    else if (o == "make") d = nbdl::make_delta<nbdl::delta_tag>(rec::make<R>(op["y"]), x);
    else if (o == "all") d = nbdl::make_delta<nbdl::delta_tag>(rec::make<R>(op["y"]));
    else if (o == "apply") { R before = x; e["changed"] = nbdl::apply_delta(d, x); }
    else if (o == "merge")
      nbdl::apply_delta(nbdl::make_delta<nbdl::delta_tag>(rec::make<R>(op["y"]), rec::make<R>(op["z"])), d);
    else ::_exit(4);
    e["x"] = rec::show(x); e["d"] = rec::show_delta(d);
    emit(e);
  }
}
int main() {
  return main_loop([](J const& ep) {
    auto c = ep["cfg"].asString();
    if (c == "one") run<rec::one>(ep);
    else if (c == "two") run<rec::two>(ep);
    else if (c == "five") run<rec::five>(ep);
    else if (c == "eight") run<rec::eight>(ep);
    else if (c == "nested") run<rec::nested>(ep);
    else if (c == "mixed") run<rec::mixed>(ep);
    else ::_exit(4);
  });
}
