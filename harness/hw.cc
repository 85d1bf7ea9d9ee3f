// One thread unless told otherwise, so that two runs number vertices alike.
#include <cstdlib>
#include <thread>
unsigned std::thread::hardware_concurrency() noexcept { const char* s = std::getenv("VH_HW"); return s ? static_cast<unsigned>(std::strtoul(s, nullptr, 10)) : 1; }
