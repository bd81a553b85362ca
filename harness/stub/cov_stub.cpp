// Coverage callback of programs which do not collect coverage.
extern "C" void __sanitizer_cov_trace_pc() {}
