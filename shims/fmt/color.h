// fmt 9 (the installed version) has no format(text_style, runtime(...)) overload; the newer fmt fiction builds with has one.
#pragma once
#include_next <fmt/color.h>
#if FMT_VERSION < 100000
namespace fmt
{
template <typename... Args>
inline std::string format(const text_style& ts, basic_runtime<char> f, const Args&... args)
{
    return vformat(ts, f.str, make_format_args(args...));
}
}  // namespace fmt
#endif
