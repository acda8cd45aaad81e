// counts the edges of the control-flow graph that the instrumented code takes
extern "C" { unsigned long long mc_edges; void __sanitizer_cov_trace_pc() { ++mc_edges; } }
