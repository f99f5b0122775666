// Bank size of the generated parser for the simulated Python library.
long sim_bank_size = 4096;
extern "C" __attribute__((visibility("default"))) void sim_set_bank_size(long n) { sim_bank_size = n; }
