#define PROP 2
#include "run.cpp"
