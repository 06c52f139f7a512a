// second translation unit of the two-unit builds of c22w.cc
#define SECOND_TU
#include "c22s.h"
