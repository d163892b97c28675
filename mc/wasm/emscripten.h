/* What the library uses of Emscripten. */
#ifndef MC_EMSCRIPTEN_H
#define MC_EMSCRIPTEN_H
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#endif
