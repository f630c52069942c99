// A simulated POSIX file tree behind libc's file calls. While it is on, every path of the process
// is a path of this tree (nothing real can be created, changed or deleted); stdio buffering is
// glibc's own, on top of simulated descriptors.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace pk {

// Fault rates of a run. Every rate is per call of the kind.
struct Rates {
    double open = 0, stat = 0, access = 0, read = 0, write = 0, sync = 0, close = 0, mkdir = 0;
    double rename = 0, unlink = 0, opendir = 0, readdir = 0, closedir = 0, seek = 0;
    double short_io = 0;   // short reads and writes
    int64_t capacity = -1; // bytes the disk can hold, -1 = no limit
};
extern Rates g_rates;
// At most this many hard errors are injected in a run.
extern int g_fault_budget;

void On(bool fsync_commits_namespace);  // empty tree, starts simulating
void Off();

// Harness access, without faults or scheduling points. Paths are absolute and plain.
void PutDir(const std::string& path);
void PutFile(const std::string& path, const std::string& content);
void PutLink(const std::string& path, const std::string& target);
// path -> "D" | "F<content>" | "L<target>", everything but "/".
std::map<std::string, std::string> Dump();
bool Get(const std::string& path, std::string* kind_and_content);
// What is certainly on the medium for the file at `path` (its last successful sync).
bool Synced(const std::string& path, std::string* content);
int64_t MtimeMs(const std::string& path);

// Hard errors injected so far / by this thread since the mark.
uint64_t Faults();
uint64_t FaultsOf(const char* kind);
uint64_t Shorts();
uint64_t Calls();
// Descriptors and directory handles now open.
int OpenHandles();
// Whether renameat2(RENAME_NOREPLACE) is supported.
extern bool g_noreplace;

// The process dies at its n-th call from now: that call and all later ones have no effect and fail.
void CrashAfter(uint64_t n);
bool Crashed();
// Brings the tree back after the crash: process crash keeps everything the kernel has; power loss
// keeps what was synced plus whatever of the rest the simulator chooses.
void Restart(bool power_loss);

}  // namespace pk
