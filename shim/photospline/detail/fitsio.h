#include "photospline/splinetable.h"
