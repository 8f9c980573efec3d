#pragma once
#include "butil/string_printf.h"
