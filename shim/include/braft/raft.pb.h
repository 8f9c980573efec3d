#pragma once
#include "braft_local.pb.h"
