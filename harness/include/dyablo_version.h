#pragma once
#include <iostream>
#define GIT_REMOTE_URL ""
#define GIT_BRANCH "verif"
#define GIT_BUILD_STRING "verif"
#define COMPILE_DATE ""
#define COMPILE_TIME ""
inline void print_version_info() { std::cout << "dyablo (verification build)\n"; }
