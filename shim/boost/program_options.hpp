#include "mini_options.h"
