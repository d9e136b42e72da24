#include "simdisk.hpp"
#include <algorithm>
#include <unistd.h>

namespace h
{
SimFile *disk_file(u32 i)
{
    return reinterpret_cast<SimFile *>(g_shared) + i;
}
u8 *disk_data(u32 i)
{
    return g_shared + 4096 + static_cast<std::size_t>(i) * FILE_MAX;
}
static_assert(NFILES * sizeof(SimFile) <= 4096, "");
static_assert(4096 + std::size_t(NFILES) * FILE_MAX <= SHARED_SZ, "");

void disk_crash(u64 seed)
{
    Rng r(seed ^ 0xc4a5);
    for (u32 i = 0; i < NFILES; ++i) {
        SimFile *f = disk_file(i);
        if (!f->used || f->durable == f->len) {
            continue;
        }
        u32 keep = f->durable;
        const u32 gap = f->len - f->durable;
        switch (r.below(4)) {
            case 0:
                break; // nothing more
            case 1:
                keep += gap; // the cache happened to be written back
                break;
            case 2: // torn at a sector boundary
                keep += std::min<u32>(gap, static_cast<u32>(r.below(gap / 512 + 1)) * 512);
                break;
            default:
                keep += static_cast<u32>(r.below(gap + 1));
        }
        if (keep < f->len) {
            f->torn = 1;
            f->complete = 0;
            count(UC_TORN);
        }
        f->len = f->durable = keep;
    }
}

void crash_now(u64 seed)
{
    count(UC_CRASH);
    disk_crash(seed);
    sim::finish_incarnation();
}

// opening truncates; what the file now stands for changes in the same step
WriteBuf::WriteBuf(u32 f, u32 op, u32 def, u32 bufsz, int fault_, u32 at_, u64 seed_, u32 twin)
    : file(f), fault(fault_), at(at_), seed(seed_), buf(bufsz + 1)
{
    setp(buf.data(), buf.data() + bufsz);
    SimFile *s = disk_file(f);
    *s = SimFile{};
    s->used = 1;
    s->op = op;
    s->def = def;
    s->twin = twin;
}
bool WriteBuf::drain()
{
    const char *p = pbase();
    u32 n = static_cast<u32>(pptr() - pbase());
    setp(buf.data(), epptr());
    SimFile *f = disk_file(file);
    if (fired) {
        return false; // the error is sticky, as a closed or full file is
    }
    while (n) {
        sim::sync_point();
        u32 k = n;
        if (k > 1 && (sim::mix(seed, f->len) & 3) == 0) { // short write, retried
            k = 1 + static_cast<u32>(sim::mix(seed, f->len + 7) % (k - 1));
            count(UC_SHORT);
        }
        if (f->len + k > FILE_MAX) {
            sim::violate("sim-error", "simulated file too large");
        }
        if (fault != DF_NONE && !fired && f->len + k > at) {
            k = at > f->len ? at - f->len : 0;
            std::memcpy(disk_data(file) + f->len, p, k);
            f->len += k;
            fired = true;
            if (fault == DF_CRASH) {
                crash_now(seed);
            }
        }
        if (fired) {
            count(fault == DF_ENOSPC ? UC_ENOSPC : UC_EIO);
            return false;
        }
        std::memcpy(disk_data(file) + f->len, p, k);
        f->len += k;
        p += k;
        n -= k;
    }
    return true;
}
WriteBuf::int_type WriteBuf::overflow(int_type c)
{
    if (!drain()) {
        refused = true;
        return traits_type::eof();
    }
    if (!traits_type::eq_int_type(c, traits_type::eof())) {
        if (pptr() < epptr()) {
            *pptr() = traits_type::to_char_type(c);
            pbump(1);
        } else { // unbuffered
            buf[0] = traits_type::to_char_type(c);
            setp(buf.data(), buf.data() + 1);
            pbump(1);
            const bool ok = drain();
            setp(buf.data(), buf.data());
            if (!ok) {
                refused = true;
                return traits_type::eof();
            }
        }
    }
    return traits_type::not_eof(c);
}
int WriteBuf::sync()
{
    return drain() ? 0 : -1;
}
bool WriteBuf::fsync()
{
    sim::sync_point();
    SimFile *f = disk_file(file);
    if (fired && fault != DF_CRASH) {
        return false;
    }
    f->durable = f->len;
    count(UC_SYNC);
    return true;
}

ReadBuf::ReadBuf(u32 f, u32 chunk_, int fault_, u32 at_)
    : file(f), chunk(chunk_ ? chunk_ : 1), fault(fault_), at(at_), buf(chunk + 1)
{
    setg(buf.data(), buf.data(), buf.data());
}
ReadBuf::int_type ReadBuf::underflow()
{
    if (gptr() < egptr()) {
        return traits_type::to_int_type(*gptr());
    }
    sim::sync_point();
    const SimFile *f = disk_file(file);
    u32 lim = f->len;
    if (fault != RF_NONE && at < lim) {
        lim = at;
    }
    if (pos >= lim) {
        hit_end = true;
        if (fault == RF_EIO && at < f->len) {
            fired = true;
            count(UC_EIO);
            throw std::ios_base::failure("simulated EIO");
        }
        if (fault == RF_TRUNC && at < f->len) {
            fired = true;
            count(UC_TORN);
        }
        return traits_type::eof();
    }
    const u32 k = std::min(chunk, lim - pos);
    if (k < chunk) {
        count(UC_SHORT);
    }
    std::memcpy(buf.data(), disk_data(file) + pos, k);
    pos += k;
    setg(buf.data(), buf.data(), buf.data() + k);
    return traits_type::to_int_type(buf[0]);
}
} // namespace h
