// Records the system calls on the file of the storage manager, and makes them
// fail. Only available in the variant without sanitizers.
#ifndef IO_H
#define IO_H
#include <cstdint>
#include <string>
#include <vector>

namespace io {

enum Kind { kOpen, kRead, kWrite, kSeek, kTruncate, kClose, kUnlink, kMark };
const char* kindName(Kind kind);

struct Event {
  Kind kind;
  int64_t offset;              // of reads and writes, or the new position
  int64_t length;              // what was asked for
  int64_t result;              // what was done; negative: -errno
  bool writable;               // open
  int a, b;                    // of marks
  std::vector<uint8_t> data;   // of writes: the bytes that were written
  int index;                   // number of the operation (not of marks)
};

// Starts following the file with this path; clears what was recorded
void track(const std::string& path);
void stop();
bool tracking();
const std::vector<Event>& events();
// Number of operations since track()
int operations();
// Adds a mark to the events
void mark(int a, int b);

struct Fault {
  enum Action {
    None,
    Fail,        // the call fails with error
    FailAll,     // ... and so do all later calls of the same kind
    Short,       // a read or write transfers only part
    ShortFail,   // ... and the next one of that kind fails
    End,         // a read finds the end of the file
    Kill         // a write transfers only part, and the process ends
  };
  Action action = None;
  int at = -1;      // the number of the operation
  int error = 0;
  int64_t bytes = 0;
};
void setFault(const Fault& fault);
// The operation that was made to fail, or null
const Event* failed();
// The file can not be opened for writing
void setReadOnly(bool on);

}  // namespace io
#endif
