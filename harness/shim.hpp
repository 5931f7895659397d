// Flat interface over one build of the library; instantiated for the native and the portable back end.
#pragma once
#include <cstdint>
#include <cstddef>
struct Backend {
    const char* name;
    // two/one operand operations on 6-word values; alias: 0 none, 1 z==x, 2 z==y, 3 x==y(same object), 4 z==x==y
    void (*bin)(int op, int alias, uint64_t* z, const uint64_t* x, const uint64_t* y);
    void (*un)(int op, int alias, uint64_t* z, const uint64_t* x);
    void (*carry)(int op, const uint64_t* in, uint64_t* out);
    size_t (*high)(int op, uint64_t sel, uint8_t* out, size_t cap);   // whole-library computations, result bytes
};
enum { B_ADD, B_SUB, B_MUL, B_LADD, B_LSUB, B_NB };
enum { U_DBL, U_NEG, U_SQR, U_LDBL, U_INV, U_SQRT, U_N };
enum { K_ADD64, K_SUB64, K_MUL64, K_MADD, K_MADD0, K_MADD1, K_MADD2, K_MADD2S, K_MADD1S, K_MADD2SB, K_MADD1SB, K_MADD3, K_N };
static const int CARRY_ARITY[K_N] = {3, 3, 2, 5, 3, 3, 4, 5, 4, 4, 3, 5};
static const int CARRY_OUT[K_N] = {2, 2, 2, 3, 1, 2, 2, 3, 3, 3, 3, 2};
enum { H_FP2, H_FP6, H_FP12, H_G1, H_G2, H_MAP, H_PAIR, H_SIGN, H_SUM, H_DIV, H_N };
extern const Backend nat_backend, port_backend;
