/* What the library uses of WASI, provided by env.c. */
#ifndef MC_WASI_API_H
#define MC_WASI_API_H
#include <stdint.h>
#include <stddef.h>
typedef size_t __wasi_size_t;
typedef uint8_t __wasi_filetype_t;
typedef uint16_t __wasi_errno_t;
typedef uint64_t __wasi_dircookie_t;
typedef uint64_t __wasi_inode_t;
typedef uint32_t __wasi_dirnamlen_t;
typedef int __wasi_fd_t;
typedef struct __wasi_dirent_t {
  __wasi_dircookie_t d_next;
  __wasi_inode_t d_ino;
  __wasi_dirnamlen_t d_namlen;
  __wasi_filetype_t d_type;
} __wasi_dirent_t;
#define __WASI_ERRNO_SUCCESS 0
__wasi_errno_t __wasi_fd_readdir(__wasi_fd_t fd, uint8_t *buf, __wasi_size_t len, __wasi_dircookie_t cookie, __wasi_size_t *used);
__wasi_errno_t __wasi_random_get(uint8_t *buf, __wasi_size_t len);
#endif
