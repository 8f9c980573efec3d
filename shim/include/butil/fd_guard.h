#pragma once
#include <unistd.h>
namespace butil { class fd_guard { public: fd_guard():fd_(-1){} explicit fd_guard(int f):fd_(f){} ~fd_guard(){ if(fd_>=0) ::close(fd_);} void reset(int f){ if(fd_>=0) ::close(fd_); fd_=f;} int release(){int f=fd_;fd_=-1;return f;} operator int() const {return fd_;} private: fd_guard(const fd_guard&); int fd_; }; }
