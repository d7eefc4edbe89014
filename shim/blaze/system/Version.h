#include "../core.h"
