// Commands as a client that need not be honest can send them (spec/Boundary.tla): before each command that the client
// library sends, malformed variants of it are sent, which must be refused without any effect.
#pragma once
#include <cstdint>
#include <map>
#include <string>
namespace boundary {
bool load(const char* table);      // the table printed by TLC from Boundary.tla
void seed(uint64_t s);
std::string take_error();          // what went wrong since the last call, empty if nothing did
extern std::map<std::string, long> count;
extern int per_command;            // malformed variants per command
}
