// what libstdc++ keeps in its binary and the stream stand-ins need
#include <stdexcept>
extern "C" void bsx_unsup_file();
extern "C" void bsx_nofile() { bsx_unsup_file(); }
