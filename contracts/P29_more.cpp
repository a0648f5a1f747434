// KIND: sym
// TIER: thorough
// TIME: 420
// P29: the remaining local vertex orders of the triangle cases
#include "p29_triangle.hpp"
OB(5, 0) OB(5, 1) OB(0, 1) OB(1, 0) OB(2, 0) OB(2, 1) OB(3, 0) OB(3, 1) PAIR(1) PAIR(2) PAIR(4) PAIR(5)
