// An archive in memory in place of libzip's: reads are chunked and fail at will.
#pragma once
#include "sym.h"
#include <zip.h>
#include <algorithm>
#include <cerrno>
#include <vector>
using std::vector;
namespace
{
struct entry { std::string name, data; bool no_name = false; };
vector<entry> entries;
bool chunked, fail_open, missing;
int read_error = ZIP_ER_READ, fail_read = -1, reads, opened, closed, discarded;
int last_error;
void (*on_read)(); // before each read
}
struct zip { int dummy; };
struct zip_file { const entry* e; size_t at; };
static struct zip the_archive;
extern "C" {
zip_t* zip_open(const char*, int, int* err) { if (missing) { *err = ZIP_ER_READ; errno = 5; return nullptr; } return &the_archive; }
void zip_discard(zip_t* a) { CHECK(a == &the_archive, "an archive that was opened is closed"); ++discarded; }
int zip_error_to_str(char* b, zip_uint64_t n, int, int) { static const char m[] = "message"; if (n) { size_t k = std::min<size_t>(n - 1, sizeof m - 1); for (size_t i = 0; i < k; ++i) b[i] = m[i]; b[k] = 0; } return sizeof m - 1; }
void zip_error_get(zip_t*, int* c, int* s) { if (c) *c = last_error; if (s) *s = 0; }
zip_int64_t zip_get_num_entries(zip_t*, zip_flags_t) { return (zip_int64_t)entries.size(); }
zip_int64_t zip_name_locate(zip_t*, const char* n, zip_flags_t)
{
    if (fail_open) { last_error = ZIP_ER_READ; return -1; }
    for (size_t i = 0; i < entries.size(); ++i) if (entries[i].name == n) return (zip_int64_t)i;
    last_error = ZIP_ER_NOENT; return -1;
}
const char* zip_get_name(zip_t*, zip_uint64_t i, zip_flags_t) { if (i >= entries.size() || entries[i].no_name) { last_error = 18; return nullptr; } return entries[i].name.c_str(); }
int zip_stat_index(zip_t*, zip_uint64_t i, zip_flags_t, struct zip_stat* s)
{
    if (i >= entries.size() || entries[i].no_name) { last_error = 18; return -1; }
    s->valid = ZIP_STAT_NAME | ZIP_STAT_INDEX | ZIP_STAT_SIZE | ZIP_STAT_CRC;
    if (fail_open) s->valid &= ~(zip_uint64_t)ZIP_STAT_CRC;
    s->name = entries[i].name.c_str(); s->index = i; s->size = entries[i].data.size(); s->crc = entries[i].data.empty() ? 0 : 77;
    return 0;
}
zip_file_t* zip_fopen_index(zip_t*, zip_uint64_t i, zip_flags_t) { CHECK(i < entries.size(), "an entry of the archive is opened"); if (fail_open) { last_error = ZIP_ER_READ; return nullptr; } ++opened; return new zip_file{&entries[i], 0}; }
zip_int64_t zip_fread(zip_file_t* f, void* b, zip_uint64_t n)
{
    if (on_read) on_read();
    if (reads++ == fail_read) return -1;
    size_t k = std::min<size_t>(n, f->e->data.size() - f->at);
    if (k > 1 && chunked) k = (size_t)sym_choose("chunk", 1, (int)k);
    for (size_t i = 0; i < k; ++i) static_cast<char*>(b)[i] = f->e->data[f->at + i];
    f->at += k;
    return (zip_int64_t)k;
}
zip_error_t* zip_file_get_error(zip_file_t*) { static zip_error_t e; e.zip_err = read_error; return &e; }
int zip_error_code_zip(const zip_error_t* e) { return e->zip_err; }
int zip_error_code_system(const zip_error_t*) { return 0; }
void zip_file_error_get(zip_file_t*, int* c, int* s) { if (c) *c = read_error; if (s) *s = 0; }
int zip_fclose(zip_file_t* f) { ++closed; delete f; return 0; }
const char* zip_strerror(zip_t*) { return "archive error"; }
const char* zip_file_strerror(zip_file_t*) { return "file error"; }
}
