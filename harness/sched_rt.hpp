// A controlled scheduler and happens-before race detector for code compiled with -fsanitize=thread (see sched_rt.cpp).
#pragma once
#include <vector>
#include <string>

namespace rt {

struct point { int enabled; int chosen; bool free; }; // free: the running thread could not continue, so switching costs nothing

// One execution: decisions follow `prefix`, then the default (keep running the same thread).
void begin(const std::vector<int>& prefix, unsigned cores);
void end();
const std::vector<point>& trace();
const std::string& trouble();     // data race, deadlock or misuse seen in this execution ("" if none)
long steps();                     // synchronisation operations executed
int  threads();                   // threads the execution created

}
