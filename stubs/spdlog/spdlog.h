// Stub of spdlog for the symbolic build: logging has no effect. The SPDLOG_* macros are compiled out, as in the
// default build of spdlog for levels below info; their arguments have no side effects.
#pragma once
#include <fmt/format.h>
namespace spdlog
{
    namespace level
    {
        enum level_enum
        {
            trace,
            debug,
            info,
            warn,
            err,
            critical,
            off
        };
    }
    template<typename... A>
    inline void trace(A const&...)
    {
    }
    template<typename... A>
    inline void debug(A const&...)
    {
    }
    template<typename... A>
    inline void info(A const&...)
    {
    }
    template<typename... A>
    inline void warn(A const&...)
    {
    }
    template<typename... A>
    inline void error(A const&...)
    {
    }
    inline void set_level(level::level_enum)
    {
    }
    inline void set_pattern(char const*)
    {
    }
} // namespace spdlog
#define SPDLOG_TRACE(...) (void) 0
#define SPDLOG_DEBUG(...) (void) 0
#define SPDLOG_INFO(...) (void) 0
#define SPDLOG_WARN(...) (void) 0
#define SPDLOG_ERROR(...) (void) 0
