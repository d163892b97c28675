/* What the library uses of libuuid under Emscripten, provided by env.c. */
#ifndef MC_UUID_H
#define MC_UUID_H
typedef unsigned char uuid_t[16];
void uuid_generate(uuid_t out);
#endif
