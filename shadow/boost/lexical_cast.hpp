// boost::lexical_cast for the pairs of types the library uses; symbolic execution only.
#pragma once
#include "shadow_ios.h"
#include <typeinfo>
namespace boost
{
struct bad_lexical_cast : std::bad_cast { const char* what() const noexcept override { return "bad lexical cast: source type value could not be interpreted as target"; } };
namespace lcd
{
inline bool tok(const std::string& s, char& k, unsigned long long& b) { if (s.size() == 3 && s[0] == 2) { k = s[1]; b = std::_sh_tokens().v[s[2] - '@']; return true; } if (s.size() != 10 || s[0] != 1) return false; k = s[1]; b = 0; for (int i = 0; i < 8; ++i) b |= (unsigned long long)(unsigned char)s[2 + i] << (8 * i); return true; }
inline bool conv(const std::string& s, std::string& v) { v = s; return true; }
inline bool conv(const std::string& s, double& v) { char k; unsigned long long b; if (tok(s, k, b)) { if (k == 'd') memcpy(&v, &b, 8); else v = (double)(long long)b; return true; } char* e; if (s.empty() || s[0] == ' ') return false; v = strtod(s.c_str(), &e); return !*e; }
template<class I> bool integ(const std::string& s, I& v, long long lo, long long hi) { char k; unsigned long long b; if (tok(s, k, b)) { v = (I)b; return k == 'i'; } std::size_t i = !s.empty() && (s[0] == '-' || s[0] == '+'); if (i == s.size()) return false; long long x = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + (s[i] - '0'); if (x > 5000000000ll) return false; } if (s[0] == '-') x = -x; if (x < lo || x > hi) return false; v = (I)x; return true; }
inline bool conv(const std::string& s, int& v) { return integ(s, v, -2147483648ll, 2147483647ll); }
inline bool conv(const std::string& s, unsigned& v) { return integ(s, v, 0, 4294967295ll); }
inline bool conv(const std::string& s, long& v) { return integ(s, v, -5000000000ll, 5000000000ll); }
inline bool conv(const std::string& s, unsigned long& v) { return integ(s, v, 0, 5000000000ll); }
inline bool conv(const std::string& s, bool& v) { char k; unsigned long long b; if (tok(s, k, b)) { v = b & 1; return k == 'b'; } if (s == "1") { v = true; return true; } if (s == "0") { v = false; return true; } return false; }
template<class S> std::string text(const S& s) { std::ostringstream o; o.precision(17); o << s; return o.str(); }
inline std::string text(const std::string& s) { return s; }
}
template<class T, class S> T lexical_cast(const S& s) { T v{}; if (!lcd::conv(lcd::text(s), v)) throw bad_lexical_cast(); return v; }
}
