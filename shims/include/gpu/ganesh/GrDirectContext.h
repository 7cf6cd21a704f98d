#pragma once
#include "include/core/SkShimAll.h"
