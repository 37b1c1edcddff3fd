#include "vf_decls.h"
#define assert(x) ((void)0)
