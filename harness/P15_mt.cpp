//BSX property=P15 covers=1 variants=0,1 threads=1 preempt.quick=2 preempt.thorough=3
//BSX bounds: two threads, each running one of three allocate/free programs on one shared allocator (also freeing blocks another thread allocated), every sequentially consistent interleaving with at most the stated number of preemptions
#include "P15_alloc.h"
