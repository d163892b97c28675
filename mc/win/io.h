/* What the library uses of the Microsoft C runtime, provided by win.c. */
#ifndef MC_WIN_IO_H
#define MC_WIN_IO_H
#include <stdint.h>
int _open_osfhandle(intptr_t handle, int flags);
intptr_t _get_osfhandle(int fd);
int _close(int fd);
#endif
