// The JSON step log is outside every property: replaced by a sink.
#pragma once
#include <iostream>
#include <fstream>
#include <string>
#include <type_traits>
#include <map>
#include "la/mvector.hpp"
namespace nlcglib {
class StepLogger {
public:
  StepLogger(int, std::string = "nlcg.json", bool = true) {}
  template <class X> void log(const std::string&, X&&) {}
};
}  // namespace nlcglib
