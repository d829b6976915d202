//BSX property=P13 covers=1,2 variants=2,3,5 def.quick=ITEMS=3,MI=2 def.thorough=ITEMS=4,MI=2 threads=1 preempt.quick=2 preempt.thorough=3 timeout.thorough=800
//BSX bounds: one producer and one consumer (LocklessQueue), or 2 producers + 1 consumer, 1 producer + 2 consumers (MicroLockQueue); 2 to ITEMS symbolic items each; every sequentially consistent interleaving of memory accesses with at most the stated number of preemptions
#include "P13_queue.h"
