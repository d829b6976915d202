//BSX property=P15 covers=1 variants=2,3 threads=1 preempt.quick=2 preempt.thorough=3 def=SHORT=1
//BSX bounds: two threads, each allocating and freeing once or freeing a block the main thread allocated, every sequentially consistent interleaving with at most the stated number of preemptions
#include "P15_alloc.h"
