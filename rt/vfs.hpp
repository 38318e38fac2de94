// An in-memory file system for the code that runs in the world (fibers); host code keeps the real one.
// It lives in static memory, so it is part of every checkpoint. File operations can be made to fail.
#pragma once
#include <cstddef>
#include <cstdint>

namespace vfs
{
const int NINO = 16, NNAME = 16, NFD = 24, FCAP = 2048;
struct Ino { int refs, linked; int size; char d[FCAP]; };
struct Name { char n[48]; int ino; }; // ino < 0: free
struct Fd { int used, ino; long pos; bool append, rd, wr; };
struct State
{
    Ino ino[NINO];
    Name name[NNAME];
    Fd fd[NFD];
    bool on;
    int ops;      // operations so far
    int fail_at;  // this operation fails (0: none), counted from `ops`
    int fail_n;   // and that many after it too
    int fail_mode; // 0: nothing happens; 1: half of a write happens, then the rest fails; other operations work
    int fail2_at, fail2_n; // another one (and that many after it)
    int half_fd;
    int die_at;   // the process ends right before this operation (0: never)
    int failed;   // operations that failed so far
    char fail_what[24];
};
State& st();
void reset();          // empty file system, switched on
int find(const char* path);
uint64_t hash();       // names and contents
const char* content(const char* path, int* n);
void set(const char* path, const void* d, int n);
void close_all();      // the process is gone
}
