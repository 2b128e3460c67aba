#pragma once
#include <string>
// Random UUIDs are modelled as distinct fresh names.
namespace boost { namespace uuids { struct uuid { int n; }; struct random_generator { uuid operator()() { static int n = 0; return uuid{++n}; } }; inline std::string to_string(uuid u) { std::string r = "00000000-0000-4000-8000-0000000000"; r += (char)('0' + u.n / 10 % 10); r += (char)('0' + u.n % 10); return r; } } }
