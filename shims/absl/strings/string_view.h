#pragma once
#include <string_view>
#include <string>
namespace absl { using std::string_view; }
