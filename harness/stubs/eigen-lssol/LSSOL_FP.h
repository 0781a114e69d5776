#pragma once
#include "LSSOL_LS.h"
