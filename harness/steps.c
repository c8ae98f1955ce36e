/* Counts the basic blocks executed in code built with -fsanitize-coverage=trace-pc. */
unsigned long steps_executed = 0;
void __sanitizer_cov_trace_pc(void) { ++steps_executed; }
