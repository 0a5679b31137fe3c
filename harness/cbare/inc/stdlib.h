#pragma once
#include <stddef.h>
void abort(void);
