// A simulated disk in memory shared by all incarnations of one run, and stream
// buffers over it.  Harness code: never instrumented.
#pragma once
#include "h.hpp"
#include <ios>
#include <streambuf>

namespace h
{
struct SimFile {
    u32 used;     // created at all
    u32 len;      // bytes written (page cache)
    u32 durable;  // bytes that survive a crash for certain
    u32 acked;    // writer was told everything is on stable storage
    u32 complete; // writer finished without an error (not necessarily synced)
    u32 op;       // index of the SAVE op that wrote it
    u32 def;      // definition it was saved from
    u32 torn;     // content was cut by a crash
    u32 twin;     // 1 + definition of the second object in the archive, 0: none
    u32 rev;      // harness data (model revision of the object saved)
};
constexpr u32 NFILES = 16;
constexpr u32 FILE_MAX = 256u << 10;
SimFile *disk_file(u32 i);
u8 *disk_data(u32 i);
// process crash: what was not synced keeps an arbitrary prefix
void disk_crash(u64 seed);
[[noreturn]] void crash_now(u64 seed);

enum DiskFault : int { DF_NONE = 0, DF_ENOSPC, DF_EIO, DF_CRASH, DF_N };

struct WriteBuf : std::streambuf {
    u32 file;
    int fault;
    u32 at; // byte offset at which the fault strikes
    u64 seed;
    bool fired = false;
    bool refused = false; // bytes handed over were not taken: the writer knows
    std::vector<char> buf;
    WriteBuf(u32 f, u32 op, u32 def, u32 bufsz, int fault_, u32 at_, u64 seed_, u32 twin = 0);
    bool drain();
    int_type overflow(int_type c) override;
    int sync() override;
    bool fsync();
};

enum ReadFault : int { RF_NONE = 0, RF_TRUNC, RF_EIO, RF_N };
struct ReadBuf : std::streambuf {
    u32 file;
    u32 chunk;
    int fault;
    u32 at;
    u32 pos = 0;
    bool fired = false;
    bool hit_end = false; // asked for bytes past the end
    std::vector<char> buf;
    ReadBuf(u32 f, u32 chunk_, int fault_, u32 at_);
    int_type underflow() override;
};
} // namespace h
