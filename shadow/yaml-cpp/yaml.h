// A reader for the JSON-like flow subset of YAML with the node interface that the library uses; only for
// symbolic execution (replays use the real yaml-cpp).
#pragma once
#include "shadow_ios.h"
#include <memory>
#include <vector>
#include <string>
#include <stdexcept>
#include <utility>
namespace YAML
{
struct Exception : std::runtime_error { explicit Exception(const std::string& s) : runtime_error(s) {} };
struct ParserException : Exception { ParserException() : Exception("yaml: parse error") {} };
struct RepresentationException : Exception { using Exception::Exception; };
struct InvalidNode : RepresentationException { InvalidNode() : RepresentationException("yaml: invalid node") {} };
struct BadConversion : RepresentationException { BadConversion() : RepresentationException("yaml: bad conversion") {} };
struct BadSubscript : RepresentationException { BadSubscript() : RepresentationException("yaml: operator[] call on a scalar") {} };
struct BadFile : Exception { BadFile() : Exception("yaml: bad file") {} };
struct _N { char kind = 'n'; std::string s; bool quoted = false; std::vector<std::pair<std::string, std::shared_ptr<_N>>> m; };
class Node
{
public:
    Node() : n_(std::make_shared<_N>()) {}
    explicit Node(std::shared_ptr<_N> n) : n_(std::move(n)) {}
    bool IsDefined() const { return n_ != nullptr; } bool IsNull() const { return n_ && n_->kind == 'n'; } bool IsScalar() const { return n_ && n_->kind == 's'; } bool IsSequence() const { return n_ && n_->kind == 'l'; } bool IsMap() const { return n_ && n_->kind == 'm'; }
    explicit operator bool() const { return IsDefined(); } bool operator!() const { return !IsDefined(); }
    std::size_t size() const { return n_ ? n_->m.size() : 0; }
    const std::string& Scalar() const { return n_->s; }
    Node operator[](const std::string& k) const { if (!n_) throw InvalidNode(); if (n_->kind == 's') throw BadSubscript(); if (n_->kind == 'm') for (auto& e : n_->m) if (e.first == k) return Node(e.second); return Node(std::shared_ptr<_N>()); }
    Node operator[](const char* k) const { return (*this)[std::string(k)]; }
    Node operator[](int i) const { if (!n_) throw InvalidNode(); if (n_->kind == 'l' && i >= 0 && (std::size_t)i < n_->m.size()) return Node(n_->m[i].second); return Node(std::shared_ptr<_N>()); }
    template<class T> T as() const { if (!n_) throw InvalidNode(); T v; if (n_->kind == 'n') return nul((T*)0); if (n_->kind != 's') throw BadConversion(); if (!conv(n_->s, v)) throw BadConversion(); return v; }
    template<class T, class U> T as(const U& d) const { if (!n_ || n_->kind != 's') return d; T v; return conv(n_->s, v) ? v : T(d); }
    struct value_type;
    class iterator { public: iterator(_N* n, std::size_t i) : n_(n), i_(i) {} Node operator*() const { return Node(n_->m[i_].second); } iterator& operator++() { ++i_; return *this; } bool operator!=(const iterator& o) const { return i_ != o.i_; } bool operator==(const iterator& o) const { return i_ == o.i_; } private: _N* n_; std::size_t i_; };
    typedef iterator const_iterator;
    iterator begin() const { return iterator(n_.get(), 0); } iterator end() const { return iterator(n_.get(), n_ && n_->kind != 's' ? n_->m.size() : 0); }
private:
    static std::string nul(std::string*) { return "null"; } template<class T> static T nul(T*) { throw BadConversion(); }
    static bool tok(const std::string& s, char& k, unsigned long long& b) { if (s.size() != 10 || s[0] != 1) return false; k = s[1]; b = 0; for (int i = 0; i < 8; ++i) b |= (unsigned long long)(unsigned char)s[2 + i] << (8 * i); return true; }
    static bool conv(const std::string& s, std::string& v) { v = s; return true; }
    static bool conv(const std::string& s, double& v) { char k; unsigned long long b; if (tok(s, k, b)) { if (k == 'd') memcpy(&v, &b, 8); else v = (double)(long long)b; return true; } char* e; if (s.empty()) return false; v = strtod(s.c_str(), &e); return !*e; }
    static bool conv(const std::string& s, int& v) { char k; unsigned long long b; if (tok(s, k, b)) { v = (int)b; return k == 'i'; } if (s.empty()) return false; std::size_t i = s[0] == '-'; if (i == s.size()) return false; long long x = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + (s[i] - '0'); if (x > 3000000000ll) return false; } if (s[0] == '-') x = -x; if (x != (int)x) return false; v = (int)x; return true; }
    static bool conv(const std::string& s, bool& v) { char k; unsigned long long b; if (tok(s, k, b)) { v = b & 1; return k == 'b'; } if (s == "true" || s == "True" || s == "yes" || s == "on" || s == "y") { v = true; return true; } if (s == "false" || s == "False" || s == "no" || s == "off" || s == "n") { v = false; return true; } return false; }
    std::shared_ptr<_N> n_;
};
struct _P
{
    const std::string& t; std::size_t i = 0;
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i; }
    void need(char c) { ws(); if (i >= t.size() || t[i] != c) throw ParserException(); ++i; }
    std::string str() { std::string r; if (t[i] == '"') { for (++i; i < t.size() && t[i] != '"'; ++i) { if (t[i] == '\\' && i + 1 < t.size()) ++i; r += t[i]; } if (i >= t.size()) throw ParserException(); ++i; } else if (t[i] == 1) { r = t.substr(i, 10); i += 10; } else { while (i < t.size() && t[i] != ',' && t[i] != '}' && t[i] != ']' && t[i] != ':' && t[i] != '\n') r += t[i++]; while (!r.empty() && r.back() == ' ') r.pop_back(); } return r; }
    std::shared_ptr<_N> val()
    {
        ws(); auto n = std::make_shared<_N>(); if (i >= t.size()) return n;
        if (t[i] == '{') { n->kind = 'm'; ++i; ws(); if (i < t.size() && t[i] == '}') { ++i; return n; } for (;;) { ws(); if (i >= t.size()) throw ParserException(); std::string k = str(); need(':'); n->m.push_back({k, val()}); ws(); if (i < t.size() && t[i] == ',') { ++i; continue; } need('}'); return n; } }
        if (t[i] == '[') { n->kind = 'l'; ++i; ws(); if (i < t.size() && t[i] == ']') { ++i; return n; } for (;;) { n->m.push_back({"", val()}); ws(); if (i < t.size() && t[i] == ',') { ++i; continue; } need(']'); return n; } }
        if (t[i] == '}' || t[i] == ']' || t[i] == ',') throw ParserException();
        bool q = t[i] == '"'; n->s = str(); n->kind = (!q && (n->s.empty() || n->s == "null" || n->s == "~")) ? 'n' : 's'; n->quoted = q; return n;
    }
};
inline Node Load(const std::string& s) { _P p{s}; auto n = p.val(); p.ws(); if (p.i != s.size()) throw ParserException(); return Node(n); }
inline Node Load(const char* s) { return Load(std::string(s)); }
inline Node Load(std::istream& i) { std::string s; for (;;) { auto c = i.get(); if (c == std::char_traits<char>::eof()) break; s += (char)c; } return Load(s); }
inline Node LoadFile(const std::string& f);
}
