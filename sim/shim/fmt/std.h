#pragma once
#include_next <fmt/std.h>
#include <optional>
#if FMT_VERSION < 100000
FMT_BEGIN_NAMESPACE
template<typename T, typename Char>
struct formatter<std::optional<T>, Char>
{
    formatter<T, Char> under;
    constexpr auto parse( basic_format_parse_context<Char> & ctx ) { return ctx.begin(); }
    template<typename Ctx>
    auto format( const std::optional<T> & o, Ctx & ctx ) const -> decltype( ctx.out() )
    {
        if( !o ) return format_to( ctx.out(), "none" );
        return format_to( ctx.out(), "optional({})", *o );
    }
};
FMT_END_NAMESPACE
#endif
