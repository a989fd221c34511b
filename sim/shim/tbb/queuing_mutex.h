#include "simtbb.h"
