// C29: temporary directories
#include "scratch.hpp"
#include "cosim/utility/filesystem.hpp"
#include <map>
#include <optional>
#include <vector>
namespace fs = cosim::filesystem;
using cosim::utility::temp_dir;
// every sequence of creation, moves and destruction on a few objects, with and without faults
extern "C" void h_temp_dir()
{
    const int ops = (int)sym_option("ops", 4), objects = (int)sym_option("objects", 3);
    auto d = scratch();
#ifndef SYM_ENGINE
    ::setenv("TMPDIR", d.c_str(), 1);
    auto tmp = d;
#else
    fs::path tmp = "/tmp";
#endif
    spit(tmp / "mine", "keep"); spit(d / "occupied", "a file");
    fs::create_directories(tmp / "mine.d");
    std::vector<std::optional<temp_dir>> o(objects);
    std::vector<fs::path> owns(objects); // empty: nothing
    std::vector<fs::path> all;
    auto check = [&] {
        for (int i = 0; i < objects; ++i) if (o[i]) CHECK(o[i]->path() == owns[i], "an object tells the directory it owns, if any");
        for (auto& p : all) {
            bool owned = false; for (auto& q : owns) owned = owned || q == p;
            CHECK(fs::exists(p) == owned, "a directory exists exactly as long as it has an owner");
            if (owned) CHECK(slurp(p / "sub" / "file") == "content", "what is in a directory stays there");
        }
        CHECK(slurp(tmp / "mine") == "keep" && slurp(d / "occupied") == "a file" && fs::is_directory(tmp / "mine.d"), "nothing else is removed");
    };
    for (int k = 0; k < ops; ++k) {
        int i = sym_choose("object", 0, objects - 1), op = sym_choose("op", 0, 3);
        if (op == 0) { // a new one
            if (o[i]) sym_end_path();
            int parent = sym_choose("parent", 0, 4);
            bool threw = false;
            const fs::path parents[] = {"", "rel", fs::path("rel") / "ative", d / "abs" / "olute", d / "occupied"};
            try { if (parent == 0 && sym_flag("default")) o[i].emplace(); else o[i].emplace(parents[parent]); } catch (const std::exception&) { threw = true; }
            CHECK(threw == (parent == 4), "failing to create a directory is reported, and only that");
            if (threw) { CHECK(!o[i], "no object without a directory"); sym_reach("failed"); }
            else {
                auto p = o[i]->path();
                CHECK(fs::is_directory(p) && p.is_absolute(), "the directory exists");
                CHECK(p.parent_path() == (parent == 0 ? tmp : parent < 3 ? tmp / parents[parent] : parents[parent]), "the directory is where it was asked for");
                CHECK(fs::is_empty(p), "the directory is new");
                for (auto& q : all) CHECK(p != q, "the directory is another one than all the others");
                fs::create_directories(p / "sub"); spit(p / "sub" / "file", "content");
                owns[i] = p; all.push_back(p);
            }
        } else if (op == 1) { // the end of one
            if (!o[i]) sym_end_path();
            if (!owns[i].empty() && sym_flag("gone")) { fs::remove_all(owns[i]); sym_reach("gone before"); }
            o[i].reset(); owns[i].clear();
        } else {
            int j = sym_choose("other", 0, objects - 1);
            if (j == i || !o[j]) sym_end_path();
            if (op == 2) { if (o[i]) sym_end_path(); o[i].emplace(std::move(*o[j])); }
            else { if (!o[i]) sym_end_path(); *o[i] = std::move(*o[j]); }
            owns[i] = owns[j]; owns[j].clear();
        }
        check();
    }
    for (int i = 0; i < objects; ++i) { o[i].reset(); owns[i].clear(); check(); }
    sym_reach("end");
}
