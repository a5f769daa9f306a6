#include "../inc_one.h"
