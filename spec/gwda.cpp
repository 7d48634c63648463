#include "gwr_common.h"
#include "gwmodelpp/GWDA.h"

#define GWDA_CLAIMS claims_gwda
#define GWDA_GROUPS 2
#include "gwda.h"
#undef GWDA_CLAIMS
#undef GWDA_GROUPS
#define GWDA_CLAIMS claims_gwda3
#define GWDA_GROUPS 3
#include "gwda.h"
