#pragma once
#include <string>
#include "qlmps/utilities.h"
namespace qlmps {
class CaseParamsParserBasic {
 public:
  explicit CaseParamsParserBasic(const char *) {}
  template<class T = double> T Parse_() { return T(); }
  int ParseInt(const std::string &) { return 0; } double ParseDouble(const std::string &) { return 0; } bool ParseBool(const std::string &) { return false; } std::string ParseStr(const std::string &) { return ""; }
};
}
