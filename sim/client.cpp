// Client code: compiled like the library (instrumented), so that header-only parts of the library
// are exercised with preemption points inside them.
#include <blackhole/extensions/facade.hpp>
#include <blackhole/logger.hpp>
#include "h.h"

namespace hs {
typedef bh::logger_facade<bh::logger_t> facade_t;
void client_facade(bh::logger_t& log, int sev, const bh::string_view& text) {
    facade_t(log).log(sev, text);
}
struct Streamed { const std::string& s; };
static std::ostream& operator<<(std::ostream& os, const Streamed& v) { return os << v.s; }
// variant selects how the arguments reach the formatter: as strings, as a streamable user type, as a lambda
void client_facade_args(bh::logger_t& log, int sev, const std::string& a, const std::string& b, int variant) {
    switch (variant) {
    case 0: facade_t(log).log(sev, "{}{}", a, b); break;
    case 3: facade_t(log).log(sev, bh::string_view("{}{} is the start of {} longer text", 4), a, b); break;   // a pattern that no zero byte follows
#ifdef __cpp_constexpr
    case 4: { constexpr bh::detail::formatter<bh::detail::literal_count("{}{}")> parsed("{}{}"); facade_t(log).log(sev, parsed, a, b); break; }
#endif
    case 1: facade_t(log).log(sev, "{}{}", Streamed{a}, b); break;
    default: facade_t(log).log(sev, "{}{}", a, [&](std::ostream& os) -> std::ostream& { return os << b; });
    }
}
void client_facade_attrs(bh::logger_t& log, int sev, const bh::string_view& text, const bh::attribute_list& l) {
    facade_t(log).log(sev, text, l);
}
void client_facade_args_attrs(bh::logger_t& log, int sev, const std::string& a, const std::string& b, const bh::attribute_list& l, int variant) {
    if (variant == 3) facade_t(log).log(sev, bh::string_view("{}{}{}{}{}", 4), a, b, l);
    else facade_t(log).log(sev, "{}{}", a, b, l);
}
}  // namespace hs
