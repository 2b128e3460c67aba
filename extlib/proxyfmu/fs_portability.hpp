#pragma once
#include <filesystem>
namespace proxyfmu { namespace filesystem = std::filesystem; }
