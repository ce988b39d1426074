#pragma once
#include "emscripten/em_asm.h"
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
inline void emscripten_run_script(char const* s) { ::page::eval("", s); }
inline int emscripten_run_script_int(char const* s) { return ::page::eval("i", (std::string("{ return (") + s + "); }").c_str()).asInt(); }
inline float emscripten_random() { return float(std::rand()) / (float(RAND_MAX) + 1.0f); }
