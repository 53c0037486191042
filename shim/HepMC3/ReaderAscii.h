#include "stand_in.h"
