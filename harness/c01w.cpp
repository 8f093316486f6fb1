// C01, without instrumentation: documents of more than 4 GB.
#include "val.hpp"
#include <sys/mman.h>
using namespace ref;
static const char* zeros() { static const char* p = static_cast<const char*>(mmap(nullptr, size_t(1) << 32, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); return p; }
// Zera offsets are 32 bits wide: content that pushes one past that is refused even though every single length fits.
PART("offsets-beyond-32-bits") { size_t k = x.choose(3); x.go(); x.op(); const size_t half = size_t(1) << 31; z::Zera::RootSerializer rs{}; z::Zera::Serializer w{rs}; bool refused = false;
    try { w.begin_array(3); w.string({zeros(), half}); w.binary({reinterpret_cast<const std::byte*>(zeros()), half - (k == 1 ? 16 : 0)}); w.string(k == 2 ? "0123456789abc" : "0123456789abcdef0123456789abcdef0123456789abcdef"); w.end_array();
        auto b = rs.finish(); z::Zera::Deserializer d(b.buf()); x.check(d.arraySize() == 3 && d[0].asStringView().size() == half && d[2].asStringView().substr(0, 5) == "01234", "the third element of a document of more than 4 GB reads back as something else"); }
    catch (const std::bad_alloc&) { refused = true; } catch (const z::SerializationError&) { refused = true; }
    x.outcome(refused ? "refused" : "kept"); }
int main(int c, char** v) { return mc::run_main(c, v, "C01"); }
