#include "blet/args.h"
#define EDITION library
#include "P27_driver.h"
