// The build here translates the format strings of fmt 6 for fmt 9, but only
// string literals; a format string that is chosen at run time has to be
// translated as well, or formatting it fails.
#pragma once
#include_next <fmt/format.h>
#ifdef FMT_DEPRECATED_OSTREAM
#include <string>
#include <type_traits>
namespace fmt {
template<typename S, typename... Args, std::enable_if_t<std::is_same_v<std::decay_t<S>, const char *> && !std::is_array_v<std::remove_reference_t<S>>, int> = 0>
inline std::string format(S &&s, Args &&...args)
{
    std::string t{s};
    for (std::size_t i = 0; (i = t.find(":n}", i)) != std::string::npos; i += 3) t[i + 1] = 'L';
    return fmt::vformat(t, fmt::make_format_args(args...));
}
}  // namespace fmt
#endif
