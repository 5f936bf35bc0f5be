#include "xid_table.h"
static bool find(const unsigned (*t)[2], std::size_t n, char32_t c)
{
    for (std::size_t i = 0; i < n; ++i) {
        if (c >= t[i][0] && c <= t[i][1]) {
            return true;
        }
    }
    return false;
}
extern "C" bool dv_xid_start(char32_t c) { return find(xid_start, sizeof(xid_start) / sizeof(*xid_start), c); }
extern "C" bool dv_xid_continue(char32_t c) { return find(xid_continue, sizeof(xid_continue) / sizeof(*xid_continue), c); }
