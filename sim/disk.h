// A simulated disk under real std::fstream objects: the system calls libstdc++'s file buffers make are served from here.
#pragma once
#include "core.h"
namespace sim {
struct Disk {                                     // lives in shared memory: it survives the simulated process
    static constexpr u32 CAP = 1 << 16, SECTOR = 32, MAXW = 4096;
    unsigned char cache[CAP], durable[CAP]; u32 size, durableSize;          // what processes see; what a crash keeps for certain
    u32 capacity;                                                         // the device is full beyond this
    u32 nWrites; struct W { u32 at, len; } writes[MAXW];                  // not yet synced
    u64 calls, crashAt;                                                   // the process dies at this system call
    u32 faultsLeft, faultRate;                                            // errors still to inject, per 64 calls
    u32 open, opens, unsyncedLostBySyncError;
    bool active;                                                          // faults and crashes on
};
extern Disk* disk;
void diskInit();
constexpr int CRASHED = 42;                       // exit status of a killed process
void diskCrash(bool sectors);                     // what is left after the machine stops: a prefix of unsynced data, or any of its sectors
bool diskSync();                                  // fsync by the writer; false: error reported
void diskTruncate(u32 n);                         // recovery cuts the tail off
}
