#include "pbt.hpp"
#ifdef WITH_MSAN
#include <sanitizer/msan_interface.h>
#endif
pbt::Property* find_property(const std::string& id);
int main(int argc, char** argv) {
#ifdef WITH_MSAN
    __msan_scoped_disable_interceptor_checks();   // strings of the uninstrumented libstdc++ in the engine's own file names
#endif
    if (argc < 2) return 2;
    pbt::Property* p = find_property(argv[1]);
    if (!p) { fprintf(stderr, "no property %s in this binary\n", argv[1]); return 2; }
    return pbt::run_main(*p, argc - 1, argv + 1);
}
