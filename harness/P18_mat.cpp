#define VF_MATRIX
#include "p18.h"
