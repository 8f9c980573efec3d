#pragma once
#include "faiss/Index.h"
