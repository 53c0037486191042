#pragma once
#include <stddef.h>
struct splinetable_buffer { void *data; size_t size; };
