// Reads a matrix with the library's readers and writes it to standard output: sizes and entries for c19.py
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/bcsr.h"
#include "matrix/cgbr.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"

template <class M> void dump(M & A)
{
    uint32_t h[3] = {A.rows, A.columns, A.nnz};
    fwrite(h, 4, 3, stdout);
    for (uint32_t i = 0; i < A.nnz; i++) {
        uint32_t k[2] = {A.get_row_index(i), A.get_column_index(i)};
        auto v = A.get_value(i);
        fwrite(k, 4, 2, stdout);
        fwrite(&v, sizeof(v), 1, stdout);
    }
}

int main(int argc, char ** argv)
{
    if (!strcmp(argv[1], "float")) {
        Coo2<float, uint32_t> A;
        if (read_COO(&A, argv[2]) < 0) return 3;
        dump(A);
    } else if (!strcmp(argv[1], "double")) {
        Coo2<double, uint32_t> A;
        if (read_mm_COO(&A, argv[2]) < 0) return 3;
        dump(A);
    } else if (!strcmp(argv[1], "three")) {
        Coo2<double, uint32_t> A;
        if (read_bin_COO(&A, argv[2], argv[3], argv[4]) < 0) return 3;
        dump(A);
    } else {                               // blocked, with a file of block sizes
        size_t n;
        uint32_t * sizes;
        if (read_bin_array(argv[3], &sizes, &n) < 0) return 4;
        uint32_t * o = new uint32_t[n + 1];
        size_to_offset(o, sizes, (uint32_t) n);
        Csbr<float, uint32_t> A;
        if (read_bin_blocked(&A, argv[2], o, (uint32_t) n, o, (uint32_t) n) < 0) return 3;
        uint32_t h[4] = {A.rows, A.columns, A.nnz, A.nnzblocks};
        fwrite(h, 4, 4, stdout);
    }
    return fclose(stdout) ? 5 : 0;
}
