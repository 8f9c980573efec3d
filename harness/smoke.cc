#include "common/latch.h"
int main() { dingodb::Latches l(16); return 0; }
