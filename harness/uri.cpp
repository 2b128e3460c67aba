// C15 C16 C17: URI parsing, reference resolution, percent encoding
#include "sym.h"
#include <cosim/uri.hpp>
#include <optional>
#include <stdexcept>
#include <vector>
using cosim::uri;
using std::string;
using opt = std::optional<string>;
static bool alpha(char c) { return (unsigned char)((c | 32) - 'a') < 26; }
static bool digit(char c) { return (unsigned char)(c - '0') < 10; }
static bool scheme_char(char c) { return alpha(c) | digit(c) | (c == '+') | (c == '-') | (c == '.'); }
static bool is_scheme(const string& s) { if (s.empty()) return false; bool r = true; for (char c : s) r = r & scheme_char(c); return r; }
struct parts { opt scheme, authority; string path; opt query, fragment; };
// RFC 3986 appendix B, applied right to left
static parts split(string s)
{
    parts p;
    auto h = s.find('#');
    if (h != string::npos) { p.fragment = s.substr(h + 1); s = s.substr(0, h); }
    auto q = s.find('?');
    if (q != string::npos) { p.query = s.substr(q + 1); s = s.substr(0, q); }
    auto c = s.find(':');
    if (c != string::npos && is_scheme(s.substr(0, c))) { p.scheme = s.substr(0, c); s = s.substr(c + 1); }
    if (s.size() >= 2 && s[0] == '/' && s[1] == '/') {
        auto e = s.find('/', 2);
        if (e == string::npos) e = s.size();
        p.authority = s.substr(2, e - 2); s = s.substr(e);
    }
    p.path = s;
    return p;
}
static string join(const parts& p)
{
    string r;
    if (p.scheme) r += *p.scheme + ":";
    if (p.authority) r += "//" + *p.authority;
    r += p.path;
    if (p.query) r += "?" + *p.query;
    if (p.fragment) r += "#" + *p.fragment;
    return r;
}
static opt o(std::optional<std::string_view> v) { return v ? opt(string(*v)) : opt(); }
static parts of(const uri& u) { return {o(u.scheme()), o(u.authority()), string(u.path()), o(u.query()), o(u.fragment())}; }
static void same(const parts& a, const parts& b)
{
    CHECK(a.scheme == b.scheme, "scheme component");
    CHECK(a.authority == b.authority, "authority component");
    CHECK(a.path == b.path, "path component");
    CHECK(a.query == b.query, "query component");
    CHECK(a.fragment == b.fragment, "fragment component");
}
extern "C" void h_uri_parse()
{
    int n = sym_choose("n", 0, (int)sym_option("len", 4));
    string s = sym_bytes("b", n);
    bool ok = true;
    uri u;
    try { u = uri(s); } catch (const std::invalid_argument&) { ok = false; }
    auto p = split(s);
    if (!ok) {
        sym_reach("rejected");
        // what may be rejected: a colon before any / ? # with no scheme in front of it
        bool good = p.scheme && alpha((*p.scheme)[0]);
        CHECK(!good, "a string with a valid scheme is accepted");
        auto c = s.find(':');
        CHECK(c != string::npos && c < s.find_first_of("/?#"), "only a malformed scheme is rejected");
        return;
    }
    sym_reach("accepted");
    CHECK(!(n > 0 && s[0] == ':'), "an empty scheme is rejected");
    same(of(u), p);
    CHECK(join(of(u)) == s, "the components compose to the original string");
    CHECK(u.view() == s, "the text is kept");
    CHECK(u.empty() == s.empty(), "empty");
    // the same components passed one by one give the same text
    uri v(u.scheme(), u.authority(), u.path(), u.query(), u.fragment());
    CHECK(v == u && v.view() == s, "composing the components gives the same URI");
    uri w(v), x;
    x = w;
    uri y(std::move(w));
    w = uri("q:r");
    same(of(x), p); same(of(y), p);
    CHECK(x == u && y == u && !(x != u), "copies compare equal");
    sym_obs_str("path", string(u.path()));
}
extern "C" void h_uri_compose()
{
    int m = (int)sym_option("len", 1);
    bool hs = sym_flag("hs"), ha = sym_flag("ha"), hq = sym_flag("hq"), hf = sym_flag("hf");
    parts p;
    if (hs) p.scheme = sym_bytes("s", sym_choose("ns", 0, m));
    if (ha) p.authority = sym_bytes("a", sym_choose("na", 0, m));
    p.path = sym_bytes("p", sym_choose("np", 0, m + 1));
    if (hq) p.query = sym_bytes("q", sym_choose("nq", 0, m));
    if (hf) p.fragment = sym_bytes("f", sym_choose("nf", 0, m));
    auto none = [](const string& s, const char* bad) { return s.find_first_of(bad) == string::npos; };
    bool valid = true;
    if (hs) valid = valid && is_scheme(*p.scheme);
    if (ha) valid = valid && none(*p.authority, "/?#") && (p.path.empty() || p.path[0] == '/');
    valid = valid && none(p.path, "?#");
    if (hq) valid = valid && none(*p.query, "#");
    // forms RFC 3986 does not allow, which may be rejected as well
    bool gray = (hs && !p.scheme->empty() && !alpha((*p.scheme)[0])) || (!ha && p.path.substr(0, 2) == "//") || (!hs && !ha && p.path.substr(0, p.path.find('/')).find(':') != string::npos);
    bool ok = true;
    uri u;
    auto sv = [](const opt& x) { return x ? std::optional<std::string_view>(*x) : std::nullopt; };
    try { u = uri(sv(p.scheme), sv(p.authority), p.path, sv(p.query), sv(p.fragment)); } catch (const std::invalid_argument&) { ok = false; }
    if (ok) { CHECK(valid, "a component with a character that is not permitted is rejected"); }
    else { sym_reach("rejected"); CHECK(!valid || gray, "permitted components are accepted"); return; }
    sym_reach("accepted");
    CHECK(string(u.view()) == join(p), "the text is the composition of the components");
    same(of(u), p);
    if (!gray) { uri v{string(u.view())}; same(of(v), p); CHECK(v == u, "parsing the composed text gives the components back"); }
    sym_obs_str("text", string(u.view()));
}
// RFC 3986 5.2.4, written over a list of segments
static string dots(const string& path)
{
    if (path.empty()) return path;
    std::vector<string> in; // pieces: each begins with '/', except possibly the first
    string cur;
    for (size_t i = 0; i < path.size(); ++i) { if (path[i] == '/' && i > 0) { in.push_back(cur); cur.clear(); } cur += path[i]; }
    in.push_back(cur);
    size_t k = 0;
    bool slashLost = false; // a leading relative dot segment was dropped together with its slash
    while (k < in.size() && (in[k] == "." || in[k] == ".." || (slashLost && (in[k] == "/." || in[k] == "/..")))) {
        ++k; slashLost = true;
    }
    if (k == in.size()) return "";
    std::vector<string> out;
    for (size_t i = k; i < in.size(); ++i) {
        string seg = in[i];
        if (i == k && slashLost) { out.push_back(seg.substr(1)); if (out.back().empty()) out.pop_back(); if (i + 1 < in.size() || !seg.substr(1).empty()) continue; return ""; }
        bool last = i + 1 == in.size();
        if (seg == "/.") { if (last) out.push_back("/"); }
        else if (seg == "/..") { if (!out.empty()) out.pop_back(); if (last) out.push_back("/"); }
        else out.push_back(seg);
    }
    string r;
    for (auto& s : out) r += s;
    return r;
}
static string resolve(const string& b, const string& r)
{
    parts B = split(b), R = split(r), T;
    if (R.scheme) { T.scheme = R.scheme; T.authority = R.authority; T.path = dots(R.path); T.query = R.query; }
    else {
        T.scheme = B.scheme;
        if (R.authority) { T.authority = R.authority; T.path = dots(R.path); T.query = R.query; }
        else {
            T.authority = B.authority;
            if (R.path == "") { T.path = B.path; T.query = R.query ? R.query : B.query; }
            else {
                T.query = R.query;
                if (R.path[0] == '/') T.path = dots(R.path);
                else if (B.authority && B.path.empty()) T.path = dots("/" + R.path);
                else { auto s = B.path.rfind('/'); T.path = dots((s == string::npos ? "" : B.path.substr(0, s + 1)) + R.path); }
            }
        }
    }
    T.fragment = R.fragment;
    return join(T);
}
// bytes from a small alphabet of the characters that matter, one case per character class
static string word(const char* name, int n, const char* alphabet, int na)
{
    string s;
    for (int i = 0; i < n; ++i) s += alphabet[sym_choose(name, 0, na - 1)];
    return s;
}
static void check_resolve(const string& b, const string& r)
{
    bool ok = true, abs = false;
    string t;
    try { uri bu(b), ru(r); abs = bu.scheme().has_value(); }
    catch (const std::invalid_argument&) { return; }
    try { t = string(cosim::resolve_reference(uri(b), uri(r)).view()); } catch (const std::invalid_argument&) { ok = false; }
    CHECK(ok == abs, "a base is accepted exactly when it is absolute");
    if (!ok) { sym_reach("not absolute"); return; }
    sym_reach("resolved");
    sym_obs_str("target", t);
    CHECK(t == resolve(b, r), "the target is the one RFC 3986 prescribes");
}
extern "C" void h_resolve_path()
{
    // dot segments and merging: paths over { / . x }, arbitrary other bytes as x
    char x = (char)sym_u8("x");
    sym_assume((x != '/') & (x != '.') & (x != ':') & (x != '?') & (x != '#'));
    char al[3] = {'/', '.', x};
    int lb = (int)sym_option("lb", 3), lr = (int)sym_option("lr", 4);
    bool auth = sym_flag("auth");
    string bp = word("b", sym_choose("nb", 0, lb), al, 3);
    if (auth) sym_assume(bp.empty() || bp[0] == '/');
    string rp = word("r", sym_choose("nr", 0, lr), al, 3);
    check_resolve(string(auth ? "s://h" : "s:") + bp, rp);
}
extern "C" void h_resolve_any()
{
    // every base and reference of the given lengths, arbitrary bytes
    string b = sym_bytes("b", sym_choose("nb", 0, (int)sym_option("lb", 3)));
    string r = sym_bytes("r", sym_choose("nr", 0, (int)sym_option("lr", 3)));
    check_resolve(b, r);
}
extern "C" void h_resolve_parts()
{
    // presence of each component on either side
    string b = sym_flag("bs") ? "s:" : "";
    if (sym_flag("ba")) b += "//h";
    b += sym_choose("bp", 0, 2) == 0 ? "" : sym_flag("bp2") ? "/p/q" : "/p";
    if (sym_flag("bq")) b += "?k";
    if (sym_flag("bf")) b += "#l";
    string r = sym_flag("rs") ? "t:" : "";
    if (sym_flag("ra")) r += "//g";
    static const char* rp[] = {"", "/m", "m/../n", "..", "./", "/../o/."};
    string p = rp[sym_choose("rp", 0, 5)];
    sym_assume(r.find("//") == string::npos || p.empty() || p[0] == '/');
    r += p;
    if (sym_flag("rq")) r += "?u";
    if (sym_flag("rf")) r += "#v";
    check_resolve(b, r);
}
static bool unreserved(char c) { return alpha(c) || digit(c) || c == '-' || c == '_' || c == '.' || c == '~'; }
static bool hexdig(char c) { return digit(c) || (unsigned char)((c | 32) - 'a') < 6; }
extern "C" void h_percent_encode()
{
    int n = sym_choose("n", 0, (int)sym_option("len", 3));
    string s = sym_bytes("b", n);
    int ne = sym_choose("ne", 0, (int)sym_option("exc", 1));
    string ex = sym_bytes("e", ne);
    for (char c : ex) sym_assume((c != '%') & (c != 0));
    auto e = cosim::percent_encode(s, ne == 0 && sym_flag("null") ? nullptr : ex.c_str());
    sym_obs_str("enc", e);
    size_t i = 0, k = 0;
    while (i < e.size()) {
        if (e[i] == '%') {
            CHECK(i + 2 < e.size() && hexdig(e[i + 1]) && hexdig(e[i + 2]), "a triplet has two hexadecimal digits");
            i += 3;
        } else {
            CHECK(unreserved(e[i]) || ex.find(e[i]) != string::npos, "only unreserved characters and exceptions are left as they are");
            CHECK(k < s.size() && e[i] == s[k], "characters left alone are those of the text");
            i += 1;
        }
        ++k;
    }
    CHECK(k == s.size(), "one item for every byte of the text");
    auto d = cosim::percent_decode(e);
    CHECK(d == s, "decoding the encoded text gives the original");
    sym_reach("end");
}
extern "C" void h_percent_decode()
{
    int n = sym_choose("n", 0, (int)sym_option("len", 4));
    string s = sym_bytes("b", n);
    bool ok = true;
    string d;
    try { d = cosim::percent_decode(s); } catch (const std::exception&) { ok = false; }
    string want;
    bool bad = false, truncated = false;
    auto val = [](char c) { return digit(c) ? c - '0' : (c | 32) - 'a' + 10; };
    for (int i = 0; i < n; ++i) {
        if (s[i] != '%') { want += s[i]; continue; }
        if (i + 2 >= n) { truncated = true; want += s.substr(i); break; }
        if (!hexdig(s[i + 1]) || !hexdig(s[i + 2])) { bad = true; break; }
        want += (char)(val(s[i + 1]) * 16 + val(s[i + 2])); i += 2;
    }
    if (bad) { sym_reach("malformed"); CHECK(!ok, "a malformed triplet is rejected"); return; }
    if (truncated && !ok) return; // a truncated triplet may be rejected too
    CHECK(ok, "well-formed text is decoded");
    CHECK(d == want, "decoded text");
    sym_reach("decoded");
}
extern "C" void h_percent_uri()
{
    // percent_encode_uri: the components are those given, encoded, and decode to the originals
    string sc = "s", a = sym_bytes("a", 1), p = "/" + sym_bytes("p", sym_choose("np", 0, (int)sym_option("len", 2))), q = sym_bytes("q", 1), f = sym_bytes("f", 1);
    bool ha = sym_flag("ha"), hq = sym_flag("hq"), hf = sym_flag("hf");
    using osv = std::optional<std::string_view>;
    uri u = cosim::percent_encode_uri(osv(sc), ha ? osv(a) : osv(), p, hq ? osv(q) : osv(), hf ? osv(f) : osv());
    parts c = of(u);
    auto dec = [](const opt& x) { return x ? opt(cosim::percent_decode(*x)) : opt(); };
    CHECK(c.scheme == opt(sc), "scheme");
    CHECK(dec(c.authority) == (ha ? opt(a) : opt()), "authority decodes to the original");
    CHECK(cosim::percent_decode(c.path) == p, "path decodes to the original");
    CHECK(dec(c.query) == (hq ? opt(q) : opt()), "query decodes to the original");
    CHECK(dec(c.fragment) == (hf ? opt(f) : opt()), "fragment decodes to the original");
    if (ha || p.substr(0, 2) != "//") same(of(uri(string(u.view()))), c);
    for (char ch : u.view()) CHECK((unsigned char)ch > 32 && (unsigned char)ch < 127, "only printable characters are written");
    sym_obs_str("text", string(u.view()));
    sym_reach("end");
}
extern "C" void h_file_uri()
{
    string s = "/" + sym_bytes("p", sym_choose("n", 0, (int)sym_option("len", 3)));
    cosim::filesystem::path p(s);
    uri u = cosim::path_to_file_uri(p);
    CHECK(u.scheme() && *u.scheme() == "file", "the scheme is file");
    CHECK(u.authority() && u.authority()->empty(), "the authority is empty");
    CHECK(!u.query() && !u.fragment(), "no query and no fragment");
    CHECK(cosim::file_uri_to_path(u).string() == s, "converting back gives the path");
    CHECK(cosim::file_uri_to_path(uri(string(u.view()))).string() == s, "parsing the text and converting back gives the path");
    sym_obs_str("text", string(u.view()));
    sym_reach("end");
    bool threw = false;
    try { cosim::path_to_file_uri(cosim::filesystem::path(s.substr(1))); } catch (const std::invalid_argument&) { threw = true; }
    CHECK(threw == (s.size() > 1 && s[1] != '/'), "a relative path is rejected");
}
extern "C" void h_file_uri_accept()
{
    // arbitrary URIs: converted exactly when they are local file URIs
    string sc = sym_choose("file", 0, 2) == 0 ? sym_bytes("s", 4) : sym_flag("has") ? "file" : "fil";
    string au = sym_choose("local", 0, 1) == 0 ? sym_bytes("a", sym_choose("na", 0, 2)) : sym_flag("lh") ? "localhost" : "localhos";
    bool ha = sym_flag("ha");
    uri u;
    try { u = uri(sc + ":" + (ha ? "//" + au : "") + "/p"); } catch (const std::invalid_argument&) { return; }
    auto p = of(u);
    bool local = p.scheme == opt("file") && p.authority && (*p.authority == "" || *p.authority == "localhost");
    bool ok = true;
    string path;
    try { path = cosim::file_uri_to_path(u).string(); } catch (const std::exception&) { ok = false; }
    if (!ok) { sym_reach("rejected"); CHECK(!local || p.path.find('%') != string::npos, "a local file URI is converted"); return; }
    sym_reach("converted");
    CHECK(local, "a URI that is not a local file URI is rejected");
    if (p.path.find('%') == string::npos) CHECK(path == p.path, "the path is the URI's path");
}
