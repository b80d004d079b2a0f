// replay runner: executes the client functions on concrete inputs against the real code of /repo
#include <stdexcept>
#include <sstream>
#include <iostream>
#include <cstdio>
#define eigen_assert(X) do { if(!(X)) throw std::logic_error(std::string("eigen_assert: ") + #X); } while(false)
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <functional>
#include <memory>
#include <deque>
#include <tuple>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <cmath>
#include <cstring>
