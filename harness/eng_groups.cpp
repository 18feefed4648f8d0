// One translation unit per GROUP so that the groups compile in parallel.
#include "engine.h"

#include "kind_groups.h"
