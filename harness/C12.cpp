// C12: XID_Start and XID_Continue for every code point.
#include "dv.h"
#include "ulight/impl/unicode_chars.hpp"

extern "C" bool dv_xid_start(char32_t);
extern "C" bool dv_xid_continue(char32_t);

extern "C" void dvh_start()
{
    const auto c = char32_t(dv_u32());
    const bool r = ulight::is_xid_start(c);
    dv_assert(r == dv_xid_start(c), "is_xid_start is XID_Start");
    dv_cover("end");
}
extern "C" void dvh_continue()
{
    const auto c = char32_t(dv_u32());
    const bool r = ulight::is_xid_continue(c);
    dv_assert(r == dv_xid_continue(c), "is_xid_continue is XID_Continue");
    dv_cover("end");
}
extern "C" void dvh_subset()
{
    const auto c = char32_t(dv_u32());
    if (ulight::is_xid_start(c)) {
        dv_assert(ulight::is_xid_continue(c), "every start character is a continue character");
        dv_cover("start");
    }
}
extern "C" void dvh_ascii()
{
    const auto c = char32_t(dv_u32());
    dv_assume(c < 128);
    dv_assert(ulight::is_xid_start(c) == ulight::is_ascii_xid_start(c), "the ASCII set agrees with is_xid_start");
    dv_assert(ulight::is_xid_continue(c) == ulight::is_ascii_xid_continue(c), "the ASCII set agrees with is_xid_continue");
    dv_cover("end");
}
