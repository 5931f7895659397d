// start-up code of the library, run by the explorer instead of the loader (see run.py, "vinit")
typedef void (*F)();
extern "C" { extern F __start_vinit[] __attribute__((weak, visibility("hidden"))); extern F __stop_vinit[] __attribute__((weak, visibility("hidden"))); extern F __start_vprio[] __attribute__((weak, visibility("hidden"))); extern F __stop_vprio[] __attribute__((weak, visibility("hidden")));
int vinit_count() { return __start_vinit ? (int)(__stop_vinit - __start_vinit) : 0; }
void vinit_prio() { if (__start_vprio) for (F* f = __start_vprio; f < __stop_vprio; f++) (*f)(); }
void vinit_run(int i) { __start_vinit[i](); } }
