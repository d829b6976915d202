//BSX property=P16 covers=1,2 threads=1 preempt.quick=1 preempt.thorough=2 def=WORKERS=2,PROGS=5
//BSX bounds: a pool with two workers besides the waiting thread, five programs of up to two tasks, every sequentially consistent interleaving with at most the stated number of preemptions
#include "P16_pool.h"
