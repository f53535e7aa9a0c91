#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace h5l { size_t leaked(std::string& what); void clear(); uint64_t failedCloses(); }
