// Runs several threads one at a time and decides after which step the next one goes on.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
enum Mode { SERIAL, PCT, LOCKS, RANDOM };     // switch only when blocked / by priorities with a few changes / at lock operations / anywhere
struct Options { Mode mode = SERIAL; uint64_t seed = 1; int depth = 2; uint64_t length = 10000; };
struct Outcome { uint64_t steps = 0, switches = 0; std::string error; };   // error: what the locks were misused for
// on_stuck is called, in the last thread that could run, when no thread can go on (or the threads run without end); it must not return
Outcome run(std::vector<std::function<void()>> bodies, const Options& o, void (*on_stuck)(const std::string& what));
bool managed();
}
