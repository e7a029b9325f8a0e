#include "vp_conv.h"
