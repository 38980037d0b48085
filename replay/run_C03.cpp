#define PROP 3
#include "run.cpp"
