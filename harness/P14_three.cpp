//BSX property=P14 covers=1,2,3,4,5,6 def.quick=THR=3 def.thorough=THR=3 threads=1 preempt.quick=2 preempt.thorough=3
//BSX bounds: three threads, each in any of the seven ways of taking the lock, every sequentially consistent interleaving with at most the stated number of preemptions
#include "P14_rwlock.h"
