#pragma once
#include <cstdint>
#include <memory>
#include <vector>
namespace lanelet
{
using Id = int64_t;
using Ids = std::vector<Id>;
constexpr Id InvalId = 0;
class LaneletMap;
using LaneletMapPtr = std::shared_ptr<LaneletMap>;
}  // namespace lanelet
