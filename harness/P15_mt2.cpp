//BSX property=P15 covers=1 variants=2,3 threads=1 preempt.quick=1 preempt.thorough=2
//BSX bounds: two threads, each running one of three allocate/free programs on one shared allocator (also freeing blocks another thread allocated), every sequentially consistent interleaving with at most the stated number of preemptions
#include "P15_alloc.h"
