// Logging is outside every property: the log sink is replaced by one that discards its input.
#pragma once
#include <mpi.h>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <list>
#include <memory>
#include <mutex>
#include <string>
namespace nlcglib {
const static struct to_stdout_trigger {} TO_STDOUT;
class Logger {
public:
  static Logger& GetInstance() { static Logger l; return l; }
  void attach_file(const std::string& = "out", const std::string& = ".log") {}
  void attach_file_master(const std::string& = "nlcg.out") {}
  template <typename T> Logger& operator<<(const T&) { return *this; }
  Logger& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  void push_prefix(const std::string&) {}
  void pop_prefix() {}
  void clear_prefix() {}
  void flush() {}
  void detach_stdout() {}
  void attach_stdout() {}
  bool is_detached() { return false; }
};
}  // namespace nlcglib
