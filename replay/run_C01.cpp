#define PROP 1
#include "run.cpp"
