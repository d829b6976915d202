//BSX property=P16 covers=1,2 threads=1 preempt.quick=2 preempt.thorough=3 def=WORKERS=1,PROGS=7
//BSX bounds: a pool with one worker besides the waiting thread, seven programs of up to two tasks, every sequentially consistent interleaving with at most the stated number of preemptions
#include "P16_pool.h"
