/* What the library uses of the Windows interface, provided by win.c. */
#ifndef MC_WINDOWS_H
#define MC_WINDOWS_H
#include <stdint.h>
#include <stddef.h>

typedef uint32_t DWORD, ULONG;
typedef int32_t LONG, BOOL;
typedef unsigned char BOOLEAN;
typedef void *PVOID, *HANDLE;
typedef const char *LPCSTR;
typedef union { struct { DWORD LowPart; LONG HighPart; }; int64_t QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart, HighPart; }; uint64_t QuadPart; } ULARGE_INTEGER;
typedef struct { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
typedef struct { uintptr_t Internal, InternalHigh; DWORD Offset, OffsetHigh; HANDLE hEvent; } OVERLAPPED;
typedef struct {
  DWORD dwFileAttributes;
  FILETIME ftCreationTime, ftLastAccessTime, ftLastWriteTime;
  DWORD dwVolumeSerialNumber, nFileSizeHigh, nFileSizeLow, nNumberOfLinks, nFileIndexHigh, nFileIndexLow;
} BY_HANDLE_FILE_INFORMATION;
typedef struct {
  DWORD dwFileAttributes;
  FILETIME ftCreationTime, ftLastAccessTime, ftLastWriteTime;
  DWORD nFileSizeHigh, nFileSizeLow, dwReserved0, dwReserved1;
  char cFileName[260];
  char cAlternateFileName[14];
} WIN32_FIND_DATAA;
typedef struct { void *owner; uint64_t mtx[8]; } CRITICAL_SECTION;

#define NTAPI
#define WINAPI
#define TRUE 1
#define FALSE 0
#define MAX_PATH 260
#define MAXDWORD 0xffffffffu
#define INFINITE 0xffffffffu
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define INVALID_FILE_ATTRIBUTES 0xffffffffu
#define INVALID_SET_FILE_POINTER 0xffffffffu

#define FILE_READ_DATA 0x1
#define FILE_WRITE_DATA 0x2
#define FILE_APPEND_DATA 0x4
#define FILE_READ_EA 0x8
#define FILE_WRITE_EA 0x10
#define FILE_READ_ATTRIBUTES 0x80
#define FILE_WRITE_ATTRIBUTES 0x100
#define DELETE 0x10000
#define READ_CONTROL 0x20000
#define SYNCHRONIZE 0x100000
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define FILE_GENERIC_READ (READ_CONTROL | FILE_READ_DATA | FILE_READ_ATTRIBUTES | FILE_READ_EA | SYNCHRONIZE)
#define FILE_GENERIC_WRITE (READ_CONTROL | FILE_WRITE_DATA | FILE_WRITE_ATTRIBUTES | FILE_WRITE_EA | FILE_APPEND_DATA | SYNCHRONIZE)
#define FILE_SHARE_READ 1
#define FILE_SHARE_WRITE 2
#define FILE_SHARE_DELETE 4
#define CREATE_NEW 1
#define CREATE_ALWAYS 2
#define OPEN_EXISTING 3
#define OPEN_ALWAYS 4
#define TRUNCATE_EXISTING 5
#define FILE_ATTRIBUTE_READONLY 0x1
#define FILE_ATTRIBUTE_DIRECTORY 0x10
#define FILE_ATTRIBUTE_DEVICE 0x40
#define FILE_ATTRIBUTE_NORMAL 0x80
#define FILE_ATTRIBUTE_REPARSE_POINT 0x400
#define FILE_FLAG_WRITE_THROUGH 0x80000000u
#define FILE_FLAG_RANDOM_ACCESS 0x10000000
#define FILE_FLAG_SEQUENTIAL_SCAN 0x08000000
#define FILE_FLAG_BACKUP_SEMANTICS 0x02000000
#define FILE_FLAG_OPEN_REPARSE_POINT 0x00200000
#define MOVEFILE_REPLACE_EXISTING 1
#define REPLACEFILE_IGNORE_MERGE_ERRORS 2
#define FILE_BEGIN 0
#define FILE_CURRENT 1
#define FILE_END 2
#define LOCKFILE_FAIL_IMMEDIATELY 1
#define LOCKFILE_EXCLUSIVE_LOCK 2
#define PAGE_READONLY 2
#define FILE_MAP_READ 4
#define WAIT_OBJECT_0 0
#define WAIT_TIMEOUT 258
#define WAIT_FAILED 0xffffffffu

#define ERROR_SUCCESS 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_PATH_NOT_FOUND 3
#define ERROR_ACCESS_DENIED 5
#define ERROR_INVALID_HANDLE 6
#define ERROR_NO_MORE_FILES 18
#define ERROR_WRITE_FAULT 29
#define ERROR_LOCK_VIOLATION 33
#define ERROR_HANDLE_EOF 38
#define ERROR_INVALID_PARAMETER 87
#define ERROR_DIR_NOT_EMPTY 145
#define ERROR_ALREADY_EXISTS 183
#define ERROR_FILE_INVALID 1006
#define ERROR_USER_MAPPED_FILE 1224

DWORD GetLastError(void);
HANDLE CreateFileA(LPCSTR, DWORD, DWORD, void *, DWORD, DWORD, HANDLE);
BOOL CloseHandle(HANDLE);
BOOL GetFileInformationByHandle(HANDLE, BY_HANDLE_FILE_INFORMATION *);
DWORD GetFileAttributesA(LPCSTR);
BOOL SetFileAttributesA(LPCSTR, DWORD);
BOOL MoveFileExA(LPCSTR, LPCSTR, DWORD);
BOOL ReplaceFileA(LPCSTR, LPCSTR, LPCSTR, DWORD, void *, void *);
BOOL DeleteFileA(LPCSTR);
BOOL CreateDirectoryA(LPCSTR, void *);
BOOL RemoveDirectoryA(LPCSTR);
HANDLE FindFirstFileA(LPCSTR, WIN32_FIND_DATAA *);
BOOL FindNextFileA(HANDLE, WIN32_FIND_DATAA *);
BOOL FindClose(HANDLE);
BOOL SetFilePointerEx(HANDLE, LARGE_INTEGER, LARGE_INTEGER *, DWORD);
BOOL GetFileSizeEx(HANDLE, LARGE_INTEGER *);
BOOL ReadFile(HANDLE, void *, DWORD, DWORD *, OVERLAPPED *);
BOOL WriteFile(HANDLE, const void *, DWORD, DWORD *, OVERLAPPED *);
BOOL SetEndOfFile(HANDLE);
BOOL FlushFileBuffers(HANDLE);
BOOL LockFileEx(HANDLE, DWORD, DWORD, DWORD, DWORD, OVERLAPPED *);
BOOL UnlockFileEx(HANDLE, DWORD, DWORD, DWORD, OVERLAPPED *);
HANDLE CreateFileMappingA(HANDLE, void *, DWORD, DWORD, DWORD, LPCSTR);
void *MapViewOfFile(HANDLE, DWORD, DWORD, DWORD, size_t);
BOOL UnmapViewOfFile(const void *);
DWORD GetCurrentDirectoryA(DWORD, char *);
DWORD GetFullPathNameA(LPCSTR, DWORD, char *, char **);
void InitializeCriticalSection(CRITICAL_SECTION *);
void DeleteCriticalSection(CRITICAL_SECTION *);
void EnterCriticalSection(CRITICAL_SECTION *);
void LeaveCriticalSection(CRITICAL_SECTION *);
HANDLE CreateSemaphoreA(void *, LONG, LONG, LPCSTR);
BOOL ReleaseSemaphore(HANDLE, LONG, LONG *);
DWORD WaitForSingleObject(HANDLE, DWORD);
void GetSystemTimeAsFileTime(FILETIME *);
BOOLEAN SystemFunction036(PVOID, ULONG);
#endif
