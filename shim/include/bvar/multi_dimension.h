#pragma once
#include "bvar/bvar.h"
