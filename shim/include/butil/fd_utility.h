#pragma once
#include <fcntl.h>
namespace butil { inline int make_close_on_exec(int fd) { return fcntl(fd, F_SETFD, FD_CLOEXEC); } inline int make_non_blocking(int fd){ int f=fcntl(fd,F_GETFL,0); return fcntl(fd,F_SETFL,f|O_NONBLOCK);} }
