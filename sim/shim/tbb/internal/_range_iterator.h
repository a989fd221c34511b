#pragma once
#include "../simtbb.h"
