// Live bytes and blocks of the heap, counted by heapcount.cpp (glibc).
#pragma once
#include <atomic>
#include <cstddef>
namespace heap {
extern std::atomic<long> bytes, blocks, total;
struct Mark { long by, bl; Mark() : by(bytes), bl(blocks) {} bool same() const { return by == bytes && bl == blocks; } };
}
