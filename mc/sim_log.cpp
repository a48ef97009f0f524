// The library's logger, without its lock and its output: formats the message (so bad arguments still fault).
#include <cstdarg>
#include <cstdio>
#include "Utils/Logger.h"
#include "sim.h"
namespace tinytorch {
std::mutex Logger::mutex_;
LogLevel Logger::minLevel_ = LOG_INFO;
void Logger::log(LogLevel level, const char*, int, const char* message, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, message);
  vsnprintf(b, sizeof b, message, ap);
  va_end(ap);
  if (sim::S && level == LOG_ERROR) { sim::Internal in; if (sim::S->log.size() < 1500) sim::S->log += std::string(b) + "; "; }
}
}  // namespace tinytorch
