#include "core.h"
