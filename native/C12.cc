#include "fam.h"
#include "regmodel.h"
void run() { for (long i = 0; i < (h::thorough ? 200000 : 20000) && !h::fails; ++i) regrun(true); }
