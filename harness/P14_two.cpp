//BSX property=P14 covers=1,2,3,4,5,6 def.quick=THR=2 def.thorough=THR=2 threads=1 preempt.quick=3 preempt.thorough=5
//BSX bounds: two threads, each in any of the seven ways of taking the lock, every sequentially consistent interleaving with at most the stated number of preemptions; waiting loops are scheduled fairly
#include "P14_rwlock.h"
