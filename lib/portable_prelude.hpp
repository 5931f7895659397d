// Force-included when the library is compiled as its portable C++ back end next to the native one: system headers first
// (so that they still see the real target), then the architecture macro is removed and the namespace renamed.
#pragma once
#include <bits/stdc++.h>
#include <gmp.h>
#include <gmpxx.h>
#include <unistd.h>
#undef __x86_64__
#define bls12_381 bls12_381_portable
