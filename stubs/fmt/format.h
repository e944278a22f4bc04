// Stub of {fmt} for the symbolic build: formatting has no effect and yields empty strings.
#pragma once
#include <array>
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace fmt
{
    template<typename T, typename Char = char, typename Enable = void>
    struct formatter
    {
        template<typename C>
        constexpr auto parse(C& ctx)
        {
            return ctx.begin();
        }
        template<typename U, typename C>
        auto format(U const&, C& ctx) const
        {
            return ctx.out();
        }
    };
    struct format_parse_context
    {
        constexpr char const* begin() const
        {
            return nullptr;
        }
        constexpr char const* end() const
        {
            return nullptr;
        }
    };
    struct format_context
    {
        char* out()
        {
            return nullptr;
        }
    };
    using string_view = char const*;
    template<typename... A>
    inline std::string format(A const&...)
    {
        return std::string();
    }
    template<typename Out, typename... A>
    inline Out format_to(Out o, A const&...)
    {
        return o;
    }
    template<typename... A>
    inline void print(A const&...)
    {
    }
    template<typename It>
    inline int join(It, It, char const*)
    {
        return 0;
    }
} // namespace fmt
