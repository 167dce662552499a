// Linked last among the harness files and before the library: runs the whole harness from a static initialiser, so
// that the library is used before its own static objects have been constructed.
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>
int harnessMain(int argc, char** argv);
static struct Early {
    Early() {
        static std::ifstream f("/proc/self/cmdline", std::ios::binary);
        static std::string all((std::istreambuf_iterator<char>(f)), {});
        static std::vector<char*> argv;
        for (size_t i = 0; i < all.size(); i += std::string(&all[i]).size() + 1) argv.push_back(&all[i]);
        exit(harnessMain(static_cast<int>(argv.size()), argv.data()));
    }
} early;
