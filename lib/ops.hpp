// Interface between the operation library (ops.so: the code under test plus thin wrappers) and the schedule/history explorers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
namespace ops {
struct In;                                             // precomputed plain-data inputs, shared read-only
struct Out { uint32_t n; uint8_t b[8184]; void put(const void* p, size_t k) { if (n + k > sizeof b) k = sizeof b - n; memcpy(b + n, p, k); n += (uint32_t)k; } bool operator==(const Out& o) const { return n == o.n && !memcmp(b, o.b, n); } };
typedef int (*count_t)(); typedef const char* (*name_t)(int); typedef void (*run_t)(int, const In*, Out*); typedef void (*setup_t)(In*); typedef size_t (*insize_t)();
}
