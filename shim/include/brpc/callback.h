#pragma once
#include "brpc/common.h"
