#include "../vf_decls.h"
