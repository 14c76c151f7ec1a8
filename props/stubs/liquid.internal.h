/* stands in for liquid-dsp's private header, of which the modem uses only the error macro */
#pragma once
#include <stdio.h>
#include "liquid.h"
#define liquid_error(code, ...) ((void)fprintf(stderr, __VA_ARGS__), (code))
