// stand-in: the distribution is declared with the other ones
#pragma once
#include "../vp_random.h"
