#pragma once
#include "bthread/bthread.h"
