// C26: extraction of archives.  libzip is replaced by an archive in memory whose reads are chunked and fail at will.
#include "sym.h"
#include "scratch.hpp"
#include <cosim/error.hpp>
#include "cosim/utility/zip.hpp"
#include "fakezip.hpp"
#include <algorithm>
#include <map>
#include <vector>
namespace
{
// what extraction should create below the target, in the order of the entries; from the zip format's rules for names
struct expectation { std::map<std::string, std::string> files; std::set<std::string> dirs; bool rejected = false, unsure = false; };
void expect(expectation& x, const entry& e)
{
    if (e.name.empty()) return;
    if (e.name[0] == '/') { x.rejected = true; return; }
    vector<std::string> c; std::string cur; bool last_is_name = false;
    int depth = 0; bool up = false;
    for (size_t i = 0; i <= e.name.size(); ++i) {
        if (i < e.name.size() && e.name[i] != '/') { cur += e.name[i]; continue; }
        last_is_name = !cur.empty() && cur != "." && cur != "..";
        if (cur == "..") { up = true; if (--depth < 0) x.rejected = true; }
        else if (last_is_name) { c.push_back(cur); ++depth; }
        cur.clear();
    }
    if (x.rejected) return;
    if (up) { x.unsure = true; return; } // stays inside, may be rejected all the same
    bool dir = e.name.back() == '/';
    if (!dir && !last_is_name) { x.unsure = true; return; }
    std::string p;
    for (size_t i = 0; i < c.size(); ++i) {
        p += (p.empty() ? "" : "/") + c[i];
        if (dir || i + 1 < c.size()) { if (x.files.count(p)) { x.unsure = true; return; } x.dirs.insert(p); }
        else { if (x.dirs.count(p)) { x.unsure = true; return; } x.files[p] = e.data; }
    }
}
std::string sym_name(int max)
{
    static const char* parts[] = {"", ".", "..", "a", "b"};
    int n = sym_choose("components", 1, max);
    std::string s;
    for (int i = 0; i < n; ++i) s += (i ? "/" : "") + std::string(parts[sym_choose("component", 0, 4)]);
    return s;
}
}
// archives with any entries
extern "C" void h_extract_all()
{
    auto base = scratch() / "t", dir = base / "in" / "target";
    cosim::filesystem::create_directories(dir);
    spit(base / "a", "outside"); spit(base / "in" / "b", "outside too");
    int n = sym_choose("entries", 0, (int)sym_option("entries", 2));
    for (int i = 0; i < n; ++i) {
        entry e;
        e.name = sym_name((int)sym_option(i ? "components2" : "components", i ? 2 : 3));
        if (e.name.empty() || e.name.back() != '/') e.data = sym_bytes("data", i ? 1 : 2);
        entries.push_back(e);
    }
    expectation x;
    for (auto& e : entries) { expect(x, e); if (x.rejected || x.unsure) break; }
    bool threw = false;
    {
        cosim::utility::zip::archive a(base / "archive");
        CHECK(a.is_open() && a.entry_count() == entries.size(), "the archive is open");
        try { a.extract_all(dir); } catch (const std::exception&) { threw = true; }
    }
    CHECK(opened == closed && discarded == 1, "everything that was opened is closed");
    if (x.rejected) CHECK(threw, "entries with absolute or escaping names are rejected");
    else if (!x.unsure) CHECK(!threw, "an archive with proper names is extracted");
    // nothing outside the target
    CHECK(slurp(base / "a") == "outside" && slurp(base / "in" / "b") == "outside too", "files outside the target are not touched");
    for (auto& e : listing(scratch())) CHECK(e == "t/" || e == "t/a" || e == "t/in/" || e == "t/in/b" || e == "t/in/target/" || e.compare(0, 12, "t/in/target/") == 0, "nothing is created outside the target");
    if (!threw && !x.unsure) {
        std::set<std::string> want; for (auto& d : x.dirs) want.insert(d + "/"); for (auto& f : x.files) want.insert(f.first);
        CHECK(listing(dir) == want, "exactly the entries' files and directories are created");
        for (auto& f : x.files) CHECK(slurp(dir / f.first) == f.second, "a file has the content of its entry");
        sym_reach("extracted");
    } else sym_reach(x.rejected ? "rejected" : "unsure");
}
// reads are chunked in any way and fail at any point, the disk gets full
extern "C" void h_extract_faults()
{
    auto dir = scratch() / "d";
    cosim::filesystem::create_directories(dir);
    int n = (int)sym_option("bytes", 4);
    entries = {{"x/", ""}, {"x/f.bin", sym_bytes("data", sym_choose("size", 0, n))}};
    chunked = true;
    bool one = sym_flag("one"), exist = sym_flag("exists");
    int fault = sym_choose("fault", 0, 4); // 0: none, 1: opening an entry, 2: reading, 3: disk full, 4: no target directory
    if (fault == 1) fail_open = true;
    if (fault == 2) { fail_read = sym_choose("fails", 0, n); read_error = sym_range("error", 1, 34); }
    if (exist) { cosim::filesystem::create_directories(dir / "x"); spit(one ? dir / "f.bin" : dir / "x" / "f.bin", "an older and longer file"); }
    if (fault == 4) { if (one) { sym_assume(false); } cosim::filesystem::remove_all(dir); if (sym_flag("file")) spit(dir, "file"); }
    bool threw = false, full = false;
    {
        cosim::utility::zip::archive a(scratch() / "archive"), b;
        if (sym_flag("move")) { cosim::utility::zip::archive c(std::move(a)); CHECK(!a.is_open() && c.is_open(), "an archive is moved"); b = std::move(c); a = std::move(b); CHECK(!b.is_open() && a.is_open(), "an archive is moved back"); }
        cosim::filesystem::path p;
        auto extract = [&] { try { if (one) p = a.extract_file_to(1, dir); else a.extract_all(dir); } catch (const std::exception&) { threw = true; } };
        if (fault == 3) { int limit = sym_choose("limit", 0, n); full = (int)entries[1].data.size() > limit; disk_limit l((size_t)limit); extract(); }
        else extract();
        if (one && !threw) CHECK(p == dir / "f.bin", "the path of the extracted file is returned");
    }
    CHECK(discarded == 1, "the archive is closed once"); CHECK(opened == closed, "every entry that was opened is closed");
    bool failed = fault == 1 || fault == 4 || full || (fault == 2 && fail_read < reads);
    CHECK(threw == failed, "failures to read or write are reported, and only such");
    if (!threw) { CHECK(slurp(one ? dir / "f.bin" : dir / "x" / "f.bin") == entries[1].data, "a file has the content of its entry, however it is read"); sym_reach("extracted"); }
    else sym_reach(full ? "disk full" : fault == 2 ? "read failed" : "failed");
}
// looking up entries
extern "C" void h_entries()
{
    namespace zip = cosim::utility::zip;
    missing = sym_flag("missing");
    if (missing) {
        bool t = false; zip::archive a;
        try { a.open(scratch() / "x.zip"); } catch (const zip::error&) { t = true; }
        CHECK(t && !a.is_open(), "an archive that cannot be opened is an error");
        sym_reach("missing"); return;
    }
    entries = {{"", ""}, {sym_bytes("name", 2), sym_flag("data") ? "x" : ""}, {"b/", ""}, {"c", ""}};
    for (char ch : entries[1].name) sym_assume(ch != 0);
    zip::archive a(scratch() / "x.zip");
    CHECK(a.entry_count() == 4, "the number of entries");
    int i = sym_choose("entry", 0, 4);
    entries[3].no_name = sym_flag("broken");
    fail_open = sym_flag("fault");
    bool bad = i == 4 || (i == 3 && entries[3].no_name), t = false;
    std::string name;
    try { name = a.entry_name(i); } catch (const zip::error&) { t = true; }
    CHECK(t == bad, "the name of an entry that does not exist is an error");
    if (!t) CHECK(name == entries[i].name, "the name of an entry");
    t = false; bool d = false;
    try { d = a.is_dir_entry(i); } catch (const zip::error&) { t = true; }
    CHECK(t == (bad || fail_open), "the kind of an entry that does not exist is an error");
    if (!t) CHECK(d == (!entries[i].name.empty() && entries[i].name.back() == '/' && entries[i].data.empty()), "directory entries end with a slash and are empty");
    t = false; zip::entry_index at = 0;
    std::string ask = sym_flag("ask") ? "c" : sym_flag("given") ? entries[1].name : "nothing";
    try { at = a.find_entry(ask); } catch (const zip::error&) { t = true; }
    CHECK(t == fail_open, "failing to look for an entry is an error");
    if (!t) {
        int want = -1; for (int k = 3; k >= 0; --k) if (entries[k].name == ask) want = k;
        CHECK(want < 0 ? at == zip::invalid_entry_index : at == (zip::entry_index)want, "an entry that does not exist is told apart from an error");
        sym_reach(want < 0 ? "not found" : "found");
    }
    a.discard(); CHECK(!a.is_open() && discarded == 1, "an archive is closed");
    sym_reach("end");
}
