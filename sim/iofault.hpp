// Faulty storage: the harness binary interposes open/fopen/read and applies the current
// plan to files whose name contains `match`.
#pragma once
#include <cstdint>
#include <string>
namespace sim {
struct IoPlan {
    bool on = false;
    std::string match;
    int open_errno = 0;            // every open fails with this
    int open_fails_first = 0;      // ... or only the first n opens (EMFILE/EINTR)
    bool short_reads = false;      // reads deliver a drawn part of what was asked
    bool eintr = false;            // reads are interrupted now and then
    int64_t eio_at = -1;           // reading at or past this offset fails with EIO
    int64_t eof_at = -1;           // the file appears to end here although it is longer
    // what actually happened
    uint64_t opens = 0, reads = 0, n_open = 0, n_short = 0, n_eintr = 0, n_eio = 0, n_eof = 0;
};
extern IoPlan io;
}
