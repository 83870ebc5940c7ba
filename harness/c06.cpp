// C06: histories of building, changing and releasing matrices.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"

#include <functional>
#include <memory>
#include <tuple>
#include "blk.h"
#include "io.h"

namespace {
typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;
#include "hist.h"

void run(pbt::Case & c)
{
    omp_set_num_threads(c.pick<int>({1, 2, 4, 3}));
    hist::History h(c, false);
    h.run(28);
}

pbt::Reg reg(TAG, run);
}
