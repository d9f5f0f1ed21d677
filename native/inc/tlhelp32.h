#include "winsim.h"
