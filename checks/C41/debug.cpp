#define SX_DEBUG_ON
#include "assert.cpp"
