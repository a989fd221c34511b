// the point dump program, its main() under another symbol; what it prints goes to prog_out
#include <cstdio>
#include <cstdarg>
#include <string>
std::string &prog_out() { static std::string s; return s; }
static int prog_printf(const char *f, ...) { char b[512]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); prog_out() += b; return n; }
int main(int, char **) __asm__("prog_dump_main");
#include "load_balancing/CommandLineInterface.h"
#define printf prog_printf
#include "../src/exe/LB_PointDump.cpp"
