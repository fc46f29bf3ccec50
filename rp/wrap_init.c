/* Linked into the scratch build with --wrap=Cudd_Init: starts with a small computed table and a 64th of the memory budget, so that a process does not
   spend its time zeroing memory. The cache grows on demand as usual; no source of /repo is changed. */
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include "cudd.h"
DdManager *__real_Cudd_Init(unsigned int, unsigned int, unsigned int, unsigned int, unsigned long);
DdManager *__wrap_Cudd_Init(unsigned int v, unsigned int z, unsigned int slots, unsigned int cache, unsigned long mem) {
    return __real_Cudd_Init(v, z, 32, 512, mem / 64);
}
