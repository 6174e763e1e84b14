// nano_comp's main, as comp_main
#include "common.hpp"
#include "stdio_stub.hpp"
#define main comp_main
#include "comp/driver.cpp"
