#pragma once
#include "shadow_ios.h"
// A clock whose formatted value is different for every reading.
namespace boost { namespace posix_time {
struct ptime { int n; };
struct wtime_facet : std::locale::facet { explicit wtime_facet(const wchar_t*) {} };
struct time_facet : std::locale::facet { explicit time_facet(const char*) {} };
struct microsec_clock { static ptime local_time() { static int n = 0; return ptime{++n}; } static ptime universal_time() { return local_time(); } };
struct second_clock : microsec_clock {};
template<class C, class T> std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& o, ptime t) { const char* p = "20260101_000000_0000"; while (*p) { C c = (C)*p++; o.put(c); } C d[2] = {(C)('0' + t.n / 10 % 10), (C)('0' + t.n % 10)}; o.put(d[0]); return o.put(d[1]); }
}}
