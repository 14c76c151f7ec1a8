#pragma once
#include <cstddef>
#include <string>
namespace ts_standin { extern int trees, parsers; extern size_t errors; extern bool fail; std::string dump(const std::string& text); }
