#pragma once
#include <memory>
