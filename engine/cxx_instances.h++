// Instances of the member templates which call into the C API.
#include "mdbx.h++"
namespace vinst {
struct P { bool operator()(const mdbx::pair &) const { return true; } };
struct V { mdbx::loop_control operator()(const mdbx::env::reader_info &, int) { return mdbx::continue_loop; } };
bool a(mdbx::cursor &c) { P p; return c.scan(p); }
bool b(mdbx::cursor &c, mdbx::slice &s) { P p; return c.scan_from(p, s); }
bool d(mdbx::cursor &c, mdbx::pair &s) { P p; return c.scan_from(p, s); }
int e(mdbx::env &e) { V v; return e.enumerate_readers(v); }
} // namespace vinst
