// the experiment program, its main() under another symbol
#include <numeric>
int main(int, char **) __asm__("prog_lb_main");
#include "../src/exe/LB_Experiments.cpp"
