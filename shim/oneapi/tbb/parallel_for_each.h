#include "../../tbb/parallel_for_each.h"
