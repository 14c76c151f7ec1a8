#include <zephyr/kernel.h>
