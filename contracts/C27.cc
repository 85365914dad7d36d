// Contracts of Logger.
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>

#include "rst/logger/logger.h"
#include "rst/logger/sink.h"
#include "verif.h"

using rst::Logger;
using Level = Logger::Level;

extern "C" {
size_t verif_dec_size(uint64_t v, bool is_signed);
char verif_dec_byte(uint64_t v, bool is_signed, size_t i);
}
#ifndef VERIF_SYMBOLIC
static char text[40];
size_t verif_dec_size(uint64_t v, bool) { return snprintf(text, 40, "%lld", (long long)v); }
char verif_dec_byte(uint64_t v, bool s, size_t i) { verif_dec_size(v, s); return text[i]; }
#endif

namespace {
const char* const kNames[] = {"ALL", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL", "OFF"};

// What the sink must be given.
struct Want {
  std::string_view level, file, message;
  int line;
  size_t Digits() const { return verif_dec_size(static_cast<uint64_t>(int64_t{line}), true); }
  size_t Size() const { return level.size() + file.size() + Digits() + message.size() + 6; }
  // Byte j of part k and where the part starts; parts: "[", level, ":", file, "(", line, ")] ", message.
  void Check(std::string_view m, unsigned k, size_t j) const {
    size_t at = 0;
    const char* const label = "[LEVEL:file(line)] message";
    if (k == 0) return verif_check(m[0] == '[', label);
    at += 1;
    if (k == 1) return verif_check(j >= level.size() || m[at + j] == level[j], label);
    at += level.size();
    if (k == 2) return verif_check(m[at] == ':', label);
    at += 1;
    if (k == 3) return verif_check(j >= file.size() || m[at + j] == file[j], label);
    at += file.size();
    if (k == 4) return verif_check(m[at] == '(', label);
    at += 1;
    if (k == 5) return verif_check(j >= Digits() || m[at + j] == verif_dec_byte(static_cast<uint64_t>(int64_t{line}), true, j), label);
    at += Digits();
    if (k == 6) return verif_check(m[at] == ')' && m[at + 1] == ']' && m[at + 2] == ' ', label);
    at += 3;
    verif_check(j >= message.size() || m[at + j] == message[j], label);
  }
};
const Want* want;
size_t position;
unsigned part;
int calls = 0;
bool fatal = false;
struct TestSink : rst::Sink {
  void Log(std::string_view m) override {
    calls++;
    verif_check(calls == 1, "passed to the sink once");
    if (want != nullptr) {
      verif_check(m.size() == want->Size(), "the whole line and nothing else");
      if (verif_native() && m.size() != want->Size()) return;
      want->Check(m, part, verif_native() ? position % 40 : position);
    }
    // From here on, and only from here on, a fatal message aborts.
    verif_end_expect();
    verif_expect_abort(fatal, "a fatal message aborts after it is emitted, others never");
  }
};
}  // namespace

HARNESS(Log) {
  Logger logger(std::make_unique<TestSink>());
  Logger::SetGlobalLogger(&logger);
  const int8_t raw = static_cast<int8_t>(verif::choice(5, "level") + 1);
  const int8_t own = verif_native() ? static_cast<int8_t>(verif::any<uint8_t>("own level") % 7) : verif::any<int8_t>("own level");
  verif_assume(own >= 0 && own <= 6);
  const bool set = verif::any<bool>("set level");
  if (set) logger.set_level(static_cast<Level>(own));
  const char* const file = verif::any_cstr("file");
  const int line = verif::any<int>("line");
  const auto message = verif::any_bytes("message");
  part = verif::choice(8, "part");
  position = verif::any<size_t>("position");
  Want w{kNames[raw], std::string_view(file, std::strlen(file)), message, line};
  want = &w;
  calls = 0;
  const bool enabled = !set || raw >= own;
  fatal = raw == 5;
  // No abort before the message is passed on, except for a bad line.
  verif_expect_abort(line <= 0, "a non-positive line asserts");
  Logger::Log(static_cast<Level>(raw), file, line, message);
  verif_end_expect();
  verif_check(calls == (enabled ? 1 : 0), "emitted exactly if its level is at least the logger's");
}

HARNESS(BadLevel) {
  Logger logger(std::make_unique<TestSink>());
  Logger::SetGlobalLogger(&logger);
  const int8_t raw = verif::any<int8_t>("level"), own = verif_native() ? 0 : verif::any<int8_t>("own level");
  verif_assume((raw < 1 || raw > 5) && own >= 0 && own <= 6);
  logger.set_level(static_cast<Level>(own));
  want = nullptr;
  calls = 0;
  fatal = true;
  verif_expect_abort(raw >= own, "a level that is not a message level asserts");
  Logger::Log(static_cast<Level>(raw), "file", 1, "message");
  verif_end_expect();
  verif_check(calls == 0, "nothing is emitted");
}

HARNESS(NoLogger) {
  const int8_t raw = verif::any<int8_t>("level");
  verif_expect_abort(true, "logging without a global logger asserts");
  Logger::Log(static_cast<Level>(raw), "file", 1, "message");
  verif_end_expect();
}

HARNESS(GlobalLogger) {
  // The logger set last is the one that is used.
  struct Count : rst::Sink {
    explicit Count(int* n) : n(n) {}
    void Log(std::string_view) override { ++*n; }
    int* n;
  };
  int a = 0, b = 0;
  Logger la(std::make_unique<Count>(&a)), lb(std::make_unique<Count>(&b));
  Logger::SetGlobalLogger(&la);
  Logger::Log(Level::kInfo, "f", 1, "m");
  verif_check(a == 1 && b == 0, "the global logger");
  Logger::SetGlobalLogger(&lb);
  Logger::Log(Level::kInfo, "f", 1, "m");
  verif_check(a == 1 && b == 1, "the global logger set last");
  lb.set_level(Level::kError);
  Logger::Log(Level::kWarning, "f", 1, "m");
  Logger::Log(Level::kError, "f", 1, "m");
  verif_check(a == 1 && b == 2, "with its own level");
  lb.set_level(Level::kOff);
  Logger::Log(Level::kFatal, "f", 1, "m");
  verif_check(b == 2, "a fatal message that is not enabled does nothing");
}

HARNESS(Macros) {
  Logger logger(std::make_unique<TestSink>());
  Logger::SetGlobalLogger(&logger);
  const auto message = verif::any_bytes("message");
  part = verif::choice(8, "part");
  position = verif::any<size_t>("position");
  const unsigned k = verif::choice(10, "macro");
  calls = 0;
  fatal = k % 5 == 4;
  verif_expect_abort(false, "no abort before the message is emitted");
  Want w{kNames[k % 5 + 1], __FILE__, message, __LINE__ + 3};
  want = &w;
  // The macros below are all on one line.
  switch (k) { case 0: RST_LOG_DEBUG(message); break; case 1: RST_LOG_INFO(message); break; case 2: RST_LOG_WARNING(message); break; case 3: RST_LOG_ERROR(message); break; case 4: RST_LOG_FATAL(message); break; case 5: RST_DLOG_DEBUG(message); break; case 6: RST_DLOG_INFO(message); break; case 7: RST_DLOG_WARNING(message); break; case 8: RST_DLOG_ERROR(message); break; default: RST_DLOG_FATAL(message); }
  verif_end_expect();
  verif_check(calls == 1, "each macro logs once");
}
