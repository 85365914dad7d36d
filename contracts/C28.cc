// Contracts of the file sinks.
#include <sys/stat.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <thread>
#include <utility>
#include <vector>

#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"
#include "verif.h"

using rst::FileNameSink;
using rst::FilePtrSink;
using rst::Sink;

extern "C" {
std::FILE* verif_stream();               // a stream whose operations may fail
size_t verif_out_size(std::FILE* f);     // what was written since the reset
char verif_out_byte(std::FILE* f, size_t i);
bool verif_out_flushed(std::FILE* f);
size_t verif_out_closed(std::FILE* f);   // number of fclose calls
void verif_out_reset(std::FILE* f);
uint64_t verif_out_unit(std::FILE* f);   // -1: the writes are not one unit
std::FILE* verif_opened();
size_t verif_opens();
size_t verif_path_size(std::FILE* f);
char verif_path_byte(std::FILE* f, size_t i);
}

#ifndef VERIF_SYMBOLIC
namespace {
struct Stream { std::FILE* f; std::string out; size_t closed = 0; int fail_after = -1; };
std::vector<Stream*> streams;
Stream* Find(std::FILE* f) { for (auto s : streams) if (s->f == f) return s; return nullptr; }
ssize_t CookieWrite(void* c, const char* p, size_t n) {
  auto s = static_cast<Stream*>(c);
  if (s->fail_after >= 0 && s->out.size() + n > static_cast<size_t>(s->fail_after)) {
    verif_expect_abort(true, "a failing write or flush aborts");
    return 0;
  }
  s->out.append(p, n);
  return static_cast<ssize_t>(n);
}
int CookieClose(void* c) { static_cast<Stream*>(c)->closed++; return 0; }
}  // namespace
std::FILE* verif_stream() {
  auto s = new Stream;
  cookie_io_functions_t io = {nullptr, CookieWrite, nullptr, CookieClose};
  s->f = fopencookie(s, "w", io);
  if (verif_rand() % 3 == 0) s->fail_after = static_cast<int>(verif_rand() % 30);
  if (verif_rand() % 3 == 0) setvbuf(s->f, nullptr, verif_rand() % 2 ? _IONBF : _IOFBF, 8);
  streams.push_back(s);
  return s->f;
}
size_t verif_out_size(std::FILE* f) { return Find(f)->out.size(); }
char verif_out_byte(std::FILE* f, size_t i) { return Find(f)->out[i]; }
bool verif_out_flushed(std::FILE*) { return true; }  // the cookie sees flushed bytes only
size_t verif_out_closed(std::FILE* f) { return Find(f)->closed; }
void verif_out_reset(std::FILE* f) { Find(f)->out.clear(); }
uint64_t verif_out_unit(std::FILE*) { return 0; }
extern "C" void verif_reset() { for (auto s : streams) delete s; streams.clear(); }
#endif

namespace {
// One message.
void LogOnce(Sink* sink, std::FILE* f, uint64_t* unit) {
  const auto m = verif::any_bytes("message");
  verif_out_reset(f);
  verif_expect_abort(false, "no abort without a failure");
  sink->Log(m);
  verif_end_expect();
  verif_check(verif_out_size(f) == m.size() + 1, "the message and one newline");
  if (verif_native() && verif_out_size(f) != m.size() + 1) return;
  size_t i = verif::any<size_t>("i");
  if (verif_native() && m.size() > 0) i %= m.size();
  verif_check(i >= m.size() || verif_out_byte(f, i) == m[i], "every byte of the message");
  verif_check(verif_out_byte(f, m.size()) == '\n', "a newline");
  verif_check(verif_out_flushed(f), "flushed before returning");
  verif_check(verif_out_closed(f) == 0, "still open");
  *unit = verif_out_unit(f);
  verif_check(*unit != ~uint64_t{0}, "one unit for the other threads");
}
}  // namespace

HARNESS(Ptr) {
  std::FILE* const f = verif_stream();
  const unsigned own = verif::choice(3, "ownership");
  {
    std::unique_ptr<Sink> sink;
    if (own == 0) sink.reset(new FilePtrSink(f));
    else sink.reset(new FilePtrSink(f, FilePtrSink::ShouldClose(own == 1)));
    uint64_t a = 0, b = 0;
    LogOnce(sink.get(), f, &a);
    LogOnce(sink.get(), f, &b);
    verif_check(a == 0 || b == 0 || a == b, "the same mutex for every message");
    verif_expect_abort(false, "destruction does not abort");
  }
  verif_check(verif_out_closed(f) == (own != 2 ? 1 : 0), "an owned stream is closed once, a borrowed one never");
  if (verif_native() && own == 2) std::fclose(f);
}

HARNESS(PtrUnused) {
  std::FILE* const f = verif_stream();
  const bool own = verif::any<bool>("own");
  { FilePtrSink sink(f, FilePtrSink::ShouldClose(own)); }
  verif_check(verif_out_closed(f) == (own ? 1 : 0), "an owned stream is closed once, a borrowed one never");
  verif_check(verif_out_size(f) == 0, "nothing is written without a message");
  if (verif_native() && !own) std::fclose(f);
}

#ifdef VERIF_SYMBOLIC
HARNESS(Name) {
  const char* const path = verif::any_cstr("path");
  std::FILE* f;
  verif_expect_abort(false, "creation does not abort");
  {
    auto r = FileNameSink::Create(path);
    verif_check(verif_opens() == 1, "opens one file");
    f = verif_opened();
    verif_end_expect();
    verif_check(r.err() == (f == nullptr), "an error exactly when the file cannot be opened");
    if (r.err()) {
      verif_check(rst::dyn_cast<rst::LogError>(r.status().GetError()) != nullptr, "a LogError");
      r.Ignore();
      return;
    }
    const size_t n = std::strlen(path), i = verif::any<size_t>("path index");
    verif_check(verif_path_size(f) == n, "the given path");
    verif_check(i >= n || verif_path_byte(f, i) == path[i], "the given path");
    uint64_t a = 0, b = 0;
    Sink* const sink = (*r).get();
    LogOnce(sink, f, &a);
    LogOnce(sink, f, &b);
    verif_check(a == 0 || b == 0 || a == b, "the same mutex for every message");
    verif_expect_abort(false, "destruction does not abort");
  }
  verif_check(verif_out_closed(f) == 1, "the file is closed once");
}
#else
namespace {
std::string Content(const std::string& p) {
  std::string s;
  if (auto f = std::fopen(p.c_str(), "r")) {
    char b[4096];
    size_t n;
    while ((n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    std::fclose(f);
  }
  return s;
}
}  // namespace
HARNESS(Name) {
  const std::string dir = std::getenv("VERIF_SCRATCH");
  const unsigned k = verif::choice(4, "place");
  const std::string path = k == 0 ? dir + "/none/f" : k == 1 ? "/dev/full" : dir + "/f";
  auto r = FileNameSink::Create(path.c_str());
  verif_check(r.err() == (k == 0), "an error exactly when the file cannot be opened");
  if (r.err()) {
    verif_check(rst::dyn_cast<rst::LogError>(r.status().GetError()) != nullptr, "a LogError");
    return;
  }
  std::string want;
  for (int i = 0; i < 3; i++) {
    const auto m = verif::any_bytes("message");
    verif_expect_abort(k == 1, "a failing write or flush aborts");
    (*r)->Log(m);
    verif_end_expect();
    want.append(m.data(), m.size());
    want += '\n';
    verif_check(Content(path) == want, "every message as one flushed line");
  }
}
#endif

#ifndef VERIF_SYMBOLIC
// Writers in several threads (native runs only).
HARNESS(Threads) {
  std::string out;
  const unsigned k = verif::choice(2, "sink");
  const std::string path = std::string(std::getenv("VERIF_SCRATCH")) + "/t" + std::to_string(verif_rand());
  {
    std::unique_ptr<Sink> sink;
    if (k == 0) {
      std::FILE* f = std::fopen(path.c_str(), "w");
      setvbuf(f, nullptr, _IONBF, 0);
      sink.reset(new FilePtrSink(f));
    } else {
      auto r = FileNameSink::Create(path.c_str());
      r.Ignore();
      sink = std::move(*r).Take();
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; t++)
      ts.emplace_back([&sink, t] { for (int i = 0; i < 40; i++) sink->Log(std::string(static_cast<size_t>(1 + t * 5), static_cast<char>('a' + t))); });
    for (auto& t : ts) t.join();
  }
  const auto s = Content(path);
  std::remove(path.c_str());
  size_t n[3] = {0, 0, 0}, b = 0;
  while (b < s.size()) {
    const size_t e = s.find('\n', b);
    verif_check(e != std::string::npos && e > b, "whole lines");
    const size_t t = static_cast<size_t>(s[b] - 'a');
    verif_check(t < 3 && s.substr(b, e - b) == std::string(1 + t * 5, s[b]), "lines are not split");
    n[t]++;
    b = e + 1;
  }
  verif_check(n[0] == 40 && n[1] == 40 && n[2] == 40, "no line is lost");
}
#endif
