// tetgen allocates with malloc: under the controlled scheduler its blocks are tracked like those of operator new
#include <stdlib.h>
#include <cstdlib>
#include <cstddef>
extern "C" void* sched_malloc(size_t); extern "C" void sched_free(void*);
#define malloc sched_malloc
#define free sched_free
