#include "XmssUtils.h"
