#define PART2
#include "c19_host_device.cpp"
