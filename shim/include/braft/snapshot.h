#pragma once
#include "braft/storage.h"
