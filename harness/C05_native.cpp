#include "dv.h"
