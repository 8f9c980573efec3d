#pragma once
#include <cerrno>
#include <cstring>
inline const char* berror(int e) { return strerror(e); }
inline const char* berror() { return strerror(errno); }
