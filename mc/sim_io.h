// Ledger and knobs of the simulated network and file layer, for the checks.
#pragma once
#include <cstdint>
#include <string>
namespace sim {
int openSockets();                  // simulated descriptors not yet closed (of living processes)
std::string openSocketList();
void blackhole(const char* addr);   // connection attempts to this address are never answered
bool connectionHit(int proc);       // a connection made by this process has been reset or refused by an injected fault
uint64_t netBytes();
int openFiles();
// path of files that may be used (everything opened outside is reported)
void fileRoot(const std::string& dir);
}
