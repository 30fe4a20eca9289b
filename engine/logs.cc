// Log sink for the library: formats every message (so a bad format argument is
// seen by the sanitizers) and drops it.
#include "pbt.h"
#include <stdarg.h>
extern "C" {
#include <swiftnav/logging.h>
}
static char sink[512];
static void drop(int, const char *msg, ...) {
  va_list a; va_start(a, msg); vsnprintf(sink, sizeof sink, msg, a); va_end(a);
}
static void drop_detailed(int, const char *, const int, const char *msg, ...) {
  va_list a; va_start(a, msg); vsnprintf(sink, sizeof sink, msg, a); va_end(a);
}
void pbt::silence_logs() { log_ = drop; detailed_log_ = drop_detailed; }
