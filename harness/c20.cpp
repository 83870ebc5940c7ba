// C20: memory discipline over histories with files and printing.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"

#include <functional>
#include <memory>
#include <tuple>
#include "blk.h"
#include "io.h"

#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t in_use() { return 0; }
#endif

namespace {
typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;
#include "hist.h"

void body(pbt::Case & c)
{
    omp_set_num_threads(c.pick<int>({1, 2, 4, 3}));
    hist::History h(c, true);
    h.run(24);
}

void run(pbt::Case & c)
{
    size_t first = c.pos;
    size_t before = in_use();
    body(c);
    size_t after = in_use();
    if (after == before) return;
    // Thread pools and buffers of the C library are made once: look at repetitions of the same history
    std::vector<uint64_t> made(pbt::shared->ch, pbt::shared->ch + c.pos);
    int64_t grown[4];
    for (int i = 0; i < 4; i++) {
        std::string keep = pbt::shared->desc;
        before = in_use();
        {
            pbt::Case again;
            again.replay = true;
            again.in = &made;
            again.pos = first;
            body(again);
        }
        grown[i] = (int64_t) (in_use() - before);
        snprintf(pbt::shared->desc, sizeof(pbt::shared->desc), "%s", keep.c_str());
    }
    CHECK(!(grown[1] > 0 && grown[1] == grown[2] && grown[2] == grown[3]),
          "%ld bytes are left in use by every repetition of the history", (long) grown[1]);
}

pbt::Reg reg(TAG, run);
}
