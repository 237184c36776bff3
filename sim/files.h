// A simulated file system behind stdio: every stdio call of the program is answered here for files that live in g_files.
#ifndef SIM_FILES_H
#define SIM_FILES_H
#include "core.h"
namespace hx {
namespace fs {
struct File { std::string name; std::vector<unsigned char> data; };
void add(const std::string &name, const std::vector<unsigned char> &data);
void arm(const std::vector<Fault> &f, int block);      // faults of the next operation
void disarm();
struct Seen { int opened, closed, open_now; uint64_t reads; bool damaged; bool damaged_reads; bool truncated; int64_t eof_at; bool open_failed; };
Seen seen();                                           // since arm()
void finished(const char *where);                      // every file closed?
void abandon();                                        // closes what a known defect left open
void tolerate_late(bool on);                           // a known defect: the file is used after it was closed
int open_now();
}
}
#endif
