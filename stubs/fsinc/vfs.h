// In-memory file system shared by the stand-ins for <fstream>, <filesystem>, mio and truncate(2).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <memory>
namespace vfs {
struct File { std::string name; bool dir = false; std::vector<uint8_t> data; };
extern std::vector<std::shared_ptr<File>> files;
// Crash points: every change of the disk is a step. From step crashAt on, changes no longer reach the disk;
// of the write at the crash point itself the first tornBytes bytes do.
extern uint64_t step, crashAt, torn;
File *find(const std::string &name);
bool change();              // counts one change; false when it must not take effect
File *create(const std::string &name);
bool truncate(const std::string &name, uint64_t n, bool mustExist = true);
bool remove(const std::string &name);
bool rename(const std::string &a, const std::string &b);
void write(File *f, uint64_t pos, const uint8_t *p, uint64_t n);
bool mkdir(const std::string &name);
void reset();
}
