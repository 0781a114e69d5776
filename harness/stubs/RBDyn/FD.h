#pragma once
#include <RBDyn/stub.h>
