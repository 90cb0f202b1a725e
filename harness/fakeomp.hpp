// A stand-in for the OpenMP runtime: the threads of a team are fibers of one
// OS thread, and the memory accesses of the code under test (announced through
// the hooks of -fsanitize=thread) are where one may be put aside for another.
#pragma once
#include <cstdint>
#include <vector>
namespace fomp {
enum Mode { RUN, RECORD, PERMUTE, ADVERSE };  // in turn; in turn, noting conflicts; in any order; switching at conflicts
void use(int threads, Mode mode, uint64_t seed);
void forget();                  // forgets the conflicts noted so far
int conflicts();                // places in the code that touch the same memory from two threads, unprotected
long long teams();              // teams of two or more run so far
long long switches();
bool real();
}
