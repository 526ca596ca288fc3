// Makes the compiler emit the conversions and parsers of the real headers that
// are put under contract; nothing here is verified itself.
#include <cstdint>
#include <vector>
#include "mlio/cpu_array.h"
#include "mlio/parser.h"
#include "mlio/util/cast.h"
using namespace mlio;
template class mlio::Cpu_array<std::vector<int>>;
template<typename T, typename... U>
void narrow(T *t, bool *r, U... u) { bool *p[] = {(*r++ = try_narrow(u, *t), r)...}; (void)p; }
template<typename... T>
void all(bool *r, T... t) { bool *p[] = {(narrow(&t, r, t...), r)...}; (void)p; }
void use(bool *r) { all(r, std::int8_t{}, std::int16_t{}, std::int32_t{}, std::int64_t{}, std::uint8_t{}, std::uint16_t{}, std::uint32_t{}, std::uint64_t{}); }
Parse_result parse_as(Data_type dt, const Parser_options &o, std::string_view s, Device_array &a, std::size_t i) { return make_parser(dt, o)(s, a, i); }
