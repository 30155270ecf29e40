#define LONG 1
#include "c08.cc"
