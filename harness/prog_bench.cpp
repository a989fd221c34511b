// the benchmark program, its main() under another symbol
#include <fstream>
int main(int, char **) __asm__("prog_bench_main");
#include "../src/exe/Benchmark.cpp"
