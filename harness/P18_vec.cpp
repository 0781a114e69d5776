#include "p18.h"
