// simrun: the C++ scenarios.  Addresses must not vary between executions.
#include <cstdlib>
#include <sys/personality.h>
#include <unistd.h>
extern "C" int simx_main(int argc, char **argv);
int main(int argc, char **argv) {
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        setenv("SIM_NO_REEXEC", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    return simx_main(argc, argv);
}
