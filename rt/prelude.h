#include <bits/c++config.h>
#ifdef __clang__
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0 // library templates are instantiated in the bitcode, so that they are executed and not assumed
#endif
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cwchar>
#include <cwctype>
#include <cctype>
#include <cassert>
#include <malloc.h>
#include <cmath>
#include <memory>
#include <string>
#include <array>
#include <limits>
#include <ostream>
#include <istream>
#include <sstream>
#include <fstream>
#include <iostream>
#include <utility>
#include <iterator>
#include <tuple>
#include <vector>
#include <algorithm>
#include <functional>
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <random>
#include <variant>
#include <emmintrin.h>
#include <float.h>
#undef __clang__
