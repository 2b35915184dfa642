// What Karl and Claire expect the user's generated `current_build.h` to provide.
#pragma once
#include "port.h"

#include <chrono>
#include <string>
#include <tuple>
#include <vector>

#include "typesystem/struct.h"
#include "typesystem/optional.h"

namespace current {
namespace build {
CURRENT_STRUCT(BuildInfo) {
  CURRENT_FIELD(build_time, std::string, "Jan  1 2024, 00:00:00");
  CURRENT_FIELD(build_time_epoch_microseconds, std::chrono::microseconds, std::chrono::microseconds(1704067200000000ll));
  CURRENT_FIELD(git_commit_hash, Optional<std::string>, std::string("0123456789"));
  CURRENT_FIELD(git_dirty_files, Optional<std::vector<std::string>>, std::vector<std::string>());
  CURRENT_FIELD(git_branch, Optional<std::string>, std::string("main"));
  bool operator==(const BuildInfo& rhs) const {
    return std::tie(build_time, build_time_epoch_microseconds, git_commit_hash, git_dirty_files, git_branch) ==
           std::tie(rhs.build_time, rhs.build_time_epoch_microseconds, rhs.git_commit_hash, rhs.git_dirty_files, rhs.git_branch);
  }
  bool operator!=(const BuildInfo& rhs) const { return !operator==(rhs); }
};
}  // namespace build
}  // namespace current
