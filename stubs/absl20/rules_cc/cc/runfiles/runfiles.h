#pragma once
#include <string>
#include <utility>
#include <vector>
namespace rules_cc::cc::runfiles {
class Runfiles {
 public:
  static Runfiles* CreateForTest(const std::string&, std::string*);
  static Runfiles* CreateForTest(std::string*);
  static Runfiles* Create(const std::string&, std::string*);
  std::string Rlocation(const std::string&) const;
  std::string Rlocation(const std::string&, const std::string&) const;
  const std::vector<std::pair<std::string, std::string>>& EnvVars() const;
};
}
