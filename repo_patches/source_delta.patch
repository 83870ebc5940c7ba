From ac3ab8dde399a53198c3363160b73dc22fc48ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 01/71] fix: initialise the balanced flag of Cgbr2

spmv() and print_info() read it, but nothing ever set it.
---
 include/matrix/cgbr.2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 6dca397..0f85625 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -25,7 +25,7 @@ struct Cgbr2 : public BlockBase<T,IT>
 
     // Partitioning information
     BlockRowPartition<IT> * partition;
-    bool balanced;
+    bool balanced {false}; // Partition is always created
 
     // Block size information
     IT * blockrow_offset;
-- 
2.43.0


From 0c7d090e67b599896a856cf5d4e1aa7dc3d05b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 02/71] fix: build CompRowCsr from unsorted input and zeroed
 row pointers

Row pointers were accumulated into uninitialised memory and non-empty rows
were counted before sorting, although count_nnz_rows needs a sorted array.
---
 include/matrix/crcsr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 6ef1753..5d01fde 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -38,7 +38,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 
     A->nnz_rows_num = nnzrows;
     A->nnz_rows = new IT[nnzrows];
-    A->row_ptr = new IT[nnzrows + 1];
+    A->row_ptr = new IT[nnzrows + 1]();
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
@@ -81,6 +81,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 template <class T, class IT, class NONZERO>
 void Coo_to_CrCsr (CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz)
 {
+    sort_triplets(nonzeros, nnz); // Counting rows needs a sorted array
     IT nnzrows = count_nnz_rows(nonzeros, nnz);
     Coo_to_CrCsr(A, nonzeros, nnz, nnzrows);
 }
-- 
2.43.0


From 30b727a020209a306f607f3d772f14d59193808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 03/71] fix: match allocation and deallocation functions in
 CSBR matrices

Block offsets came from new[] or malloc depending on the constructor and were
always passed to free(); row pointers from calloc were passed to delete[].
---
 include/matrix/csbr.2.h |  6 +++---
 include/matrix/csbr.h   | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index 01e863d..f134966 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -226,10 +226,10 @@ void release(Csbr2<T, IT>& A)
   }
   // Block-row and block-column offsets may point to the same array
   if (A.blockcol_offset == A.blockrow_offset) {
-    free(A.blockrow_offset);
+    delete [] A.blockrow_offset;
   } else {
-    free(A.blockcol_offset);
-    free(A.blockrow_offset);
+    delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
   }
   free(A.blockrow_ptr);
   free(A.row_ptr);
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index ffb094e..b6b3963 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -262,7 +262,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(B->elements[i].row >= br_offset);
@@ -312,8 +312,8 @@ void Coo_to_Csbr(Csbr<T, IT> * A, COOTYPE * B, IT br_size, IT bc_size)
 
   if(blockrows == 0) blockrows = 1;
   if(blockcols == 0) blockcols = 1;
-  IT * blockrow_offset = (IT *) malloc( (blockrows + 1) * sizeof(IT));
-  IT * blockcol_offset = (IT *) malloc( (blockcols + 1) * sizeof(IT));
+  IT * blockrow_offset = new IT[blockrows + 1];
+  IT * blockcol_offset = new IT[blockcols + 1];
 
   // Calculate block-row offsets
   blockrow_offset[0] = 0;
@@ -372,10 +372,10 @@ void release(Csbr<T, IT>& A)
 
     // Block-row and block-column offsets may point to the same array
     if (A.blockcol_offset == A.blockrow_offset) {
-        free(A.blockrow_offset);
+        delete [] A.blockrow_offset;
     } else {
-        free(A.blockcol_offset);
-        free(A.blockrow_offset);
+        delete [] A.blockcol_offset;
+        delete [] A.blockrow_offset;
     }
 
     free(A.blockcol_ind);
-- 
2.43.0


From 48f0b7bb7b2a261bdc52fb631d060754f5a3aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 04/71] fix: release the block-row partition of CSBR matrices

---
 include/matrix/csbr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index b6b3963..bb27f6c 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -366,6 +366,8 @@ void print_info(Csbr<T, IT> const& A)
 template <class T, class IT>
 void release(Csbr<T, IT>& A)
 {
+    partition_destroy(&A);
+
     for (IT i=0; i<A.nnzblocks; i++) {
         delete [] A.blocks[i].row_ptr;
     }
-- 
2.43.0


From 25321cd2c058aa77bbfb0ca542c075127010c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 05/71] fix: always create the block-row partition of Cgbr

Other blocked matrices always have one, read_bin_blocked() created one that
release() leaked, and bin/test/partition dereferenced an uninitialised pointer
when the matrix was balanced.
---
 include/matrix/cgbr.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 65f4e97..176d324 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -340,10 +340,8 @@ void Coo_to_Cgbr(
 
   A->balanced = A->is_balanced();
 
-  if (!A->balanced) {
-      // Unbalanced block-rows. We need within-block-row parallelism.
-      partition_init(A);
-  }
+  // Needed for within-block-row parallelism and by partition_dump()
+  partition_init(A);
 }
 
 /*
@@ -396,8 +394,7 @@ void release (MatrixBlock<T,IT,SIT> *A)
 template <class T, class IT, class SIT>
 void release(Cgbr<T,IT,SIT>& A)
 {
-    if (!A.balanced)
-        partition_destroy(&A);
+    partition_destroy(&A);
 
     // Release memory for each block
     for (IT i=0; i<A.nnzblocks; i++) {
-- 
2.43.0


From bb974ac94e1d03b71a81e63ed9b9a53b7bf13f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 06/71] fix: release block offsets of CGBR matrices

CSBR matrices own and release their offset arrays; CGBR matrices leaked them.
---
 include/matrix/cgbr.2.h | 6 ++++++
 include/matrix/cgbr.h   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 0f85625..fe8ab39 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -240,6 +240,12 @@ void release(Cgbr2<T,IT,SIT>& A)
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
+
+    // Block-row and block-column offsets may point to the same array
+    if (A.blockcol_offset != A.blockrow_offset) {
+        delete [] A.blockcol_offset;
+    }
+    delete [] A.blockrow_offset;
 }
 
 #endif
diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 176d324..1b34f32 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -404,6 +404,12 @@ void release(Cgbr<T,IT,SIT>& A)
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
+
+    // Block-row and block-column offsets may point to the same array
+    if (A.blockcol_offset != A.blockrow_offset) {
+        delete [] A.blockcol_offset;
+    }
+    delete [] A.blockrow_offset;
 }
 
 #endif
-- 
2.43.0


From 256d663597140e12d30e0bf8da0c33dd3670624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 07/71] fix: release the values of dense blocks

DenseSerial was the only BlockBase without a destructor for its array.
---
 include/matrix/dense.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 76c052b..9d5f362 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -15,7 +15,7 @@
 template <typename T, typename IT>
 struct DenseSerial : public BlockBase<T,IT>
 {
-    T * val;
+    T * val {nullptr};
     IT rows, columns;
 
     DenseSerial(Element<T,IT> * array, IT _rows, IT _columns, IT nnz)
@@ -34,6 +34,11 @@ struct DenseSerial : public BlockBase<T,IT>
 
     DenseSerial() {} // For testing. Should go.
 
+    ~DenseSerial()
+    {
+        delete [] val;
+    }
+
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
      * y should already be allocated and initialized. In this case A, is not
-- 
2.43.0


From 481e9d18f01f23a7647be2ecdd37dd3ffdcc1ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 08/71] fix: accumulate repeated entries in dense matrices

Every other format adds up entries with the same coordinates; dense kept the
last one only, so a CGBR product depended on the type chosen for a block.
---
 include/matrix/dense.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 9d5f362..fbe202b 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -28,7 +28,7 @@ struct DenseSerial : public BlockBase<T,IT>
         for (IT i=0; i<nnz; i++)
         {
             pos = array[i].row * columns + array[i].col;
-            val[pos] = array[i].val;
+            val[pos] += array[i].val;
         }
     }
 
@@ -113,7 +113,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     for (IT i=0; i<nnz; i++)
     {
         pos = nonzeros[i].row * columns + nonzeros[i].col;
-        A->val[pos] = nonzeros[i].val;
+        A->val[pos] += nonzeros[i].val;
     }
 }
 
-- 
2.43.0


From 00a3d3f94bcb4bb75bef2a0ab7858b2ae5bb478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 09/71] fix: do not free the arrays of Coo twice

release() followed by the destructor freed them again, and destroying a Coo
that was never filled freed uninitialised pointers.
---
 include/matrix/coo.1.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index f649622..93e01cf 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -30,7 +30,7 @@ struct Coo : public BlockBase<T,IT>
         }
     }
 
-    Coo() {}    // We need this
+    Coo() : I(nullptr), J(nullptr), val(nullptr) {}    // We need this
 
     ~Coo()
     {
@@ -77,6 +77,9 @@ void release(Coo<T,IT,SIT>& A)
     delete [] A.I;
     delete [] A.J;
     delete [] A.val;
+    A.I = nullptr;
+    A.J = nullptr;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From b5aa9deb13fe10cf8fcd9c9e9b643e03c982b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 10/71] fix: do not read past the end of the array in
 sort_triplets_blocks

---
 include/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index ea1ea56..1cc8fd1 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -245,7 +245,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   brow_ptr[0] = 0;
   i = 0;
   for (IT br=0; br<blockrows; br++) {
-    while(array[i].row < brow_offset[br+1]) i++;
+    while(i < size && array[i].row < brow_offset[br+1]) i++;
     brow_ptr[br+1] = i;
   }
   brow_ptr[blockrows] = size;
-- 
2.43.0


From 706ee4f5c5f0f3efabaa3d1c317d4d35622cfac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 11/71] fix: count zero blocks in an empty matrix

Blocked constructors failed their own sanity check on a matrix without
non-zeros.
---
 include/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils.h b/include/utils.h
index 1cc8fd1..56eddb3 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -334,6 +334,8 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
 template <class T, class IT>
 IT count_blocks(Element<T, IT> * array, IT size)
 {
+  if (size == 0) return 0;
+
   IT current = array[0].block;
   IT count = 1;
 
-- 
2.43.0


From b6bf9adef374c3b42f73cd6123d267bb0e29e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 12/71] fix: release dense matrices by reference

The copy would be destroyed, and its values freed, a second time.
---
 include/matrix/dense.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index fbe202b..7a69bbd 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -145,9 +145,10 @@ void allocate(DENSE<T,IT> * A, IT rows, IT columns)
  */
 template <class T, class IT,
           template <typename, typename> class DENSE>
-void release(DENSE<T,IT> A)
+void release(DENSE<T,IT>& A)
 {
     delete [] A.val;
+    A.val = nullptr; // DenseSerial has a destructor too
 }
 
 #endif
-- 
2.43.0


From 313b70068acd7f4ad1e914f4f0606af51863d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 13/71] fix: never pick a block size of zero

Matrices with a small dimension got a block size of 0, and blocked formats
divided by it (bin/test/result crashed on a 10x10 matrix with 8 threads).
---
 include/utils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index 56eddb3..ee5ccbe 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -30,7 +30,11 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     if (!sizereq) {
-    	return 0;
+    	// Too small to be split in both dimensions. Use blocks as large as the
+    	// matrix, as long as subx and suby still fit in L2 cache.
+    	IT size = std::max(roundrowup, roundcolup);
+    	while (size > 1 && size * val_size > L2SIZE / 2) size /= 2;
+    	return size;
     }
 
     IT rowlowbits = rowbits-1;	
-- 
2.43.0


From 1b36f36c5d0c6de925c2f92755cf01846c079543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 14/71] fix: do not overflow the token buffers of
 mm_read_banner

A header line may be much longer than MM_MAX_TOKEN_LENGTH.
---
 dep/mm_io/mm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index cfefd2e..3fcc501 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -85,7 +85,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     return MM_PREMATURE_EOF;
   }
 
-  if ( sscanf ( line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if ( sscanf ( line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
     storage_scheme ) != 5 )
   {
     return MM_PREMATURE_EOF;
-- 
2.43.0


From e8623000099b6b986eb494ffaa23df24666d9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 15/71] fix: reject malformed size lines in
 mm_read_mtx_crd_size

fscanf() never consumes text that is not a number, so the loop never ended; a
size line with a missing field made the first entry pass for the size.
---
 dep/mm_io/mm_io.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 3fcc501..fdde60c 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -455,16 +455,17 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
   {
     return 0;
   }
+  else if (line[strspn(line, " \t\r\n")] != '\0')
+  {
+    return MM_UNSUPPORTED_TYPE;
+  }
   else
   {
-    do
+    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
+    if (num_items_read != 3)
     {
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      if (num_items_read == EOF)
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+      return MM_PREMATURE_EOF;
+    }
   }
   return 0;
 }
-- 
2.43.0


From cb58618d75a694b609d09dc3ab6aa8da2e30c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 16/71] fix: read MatrixMarket files as their header says, or
 reject them

Pattern entries have no value but one was read, so all entries were garbage.
Skew-symmetric matrices were read as general and lost their mirrored entries.
Entries that were malformed, missing, or outside the matrix were accepted
(stale values were stored for them), and hermitian matrices misread.
---
 include/io/input.h | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 57d400d..b95a98a 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -47,7 +47,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Open file for reading
   MM_typecode matcode;
   FILE * f = fopen(filename, "r");
-  int symflag = 0, ret;
+  int symflag = 0, skewflag = 0, ret;
   unsigned long r, c, counter, position;
   double val;
 
@@ -59,36 +59,52 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read header and perform type checks
   if (mm_read_banner(f, &matcode) != 0){
       fprintf(stderr, "Could not process Matrix Market banner.\n");
+      fclose(f);
       return -2;
   }
 
-  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ){
+  if (mm_is_complex(matcode) || mm_is_hermitian(matcode) ||
+      !mm_is_coordinate(matcode) || !mm_is_valid(matcode)){
       fprintf(stderr, "Sorry, this program does not support ");
       fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
+      fclose(f);
       return -3;
   }
 
-  if (mm_is_symmetric(matcode)) symflag = 1;
+  if (mm_is_skew(matcode)) skewflag = 1;
+  if (mm_is_symmetric(matcode) || skewflag) symflag = 1;
 
   // Read size and allocate memory. Following function only works with ints
   int nr, nc, nnz;
   int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
-  if (ret_code != 0) {
+  if (ret_code != 0 || nr < 0 || nc < 0 || nnz < 0 || (symflag && nr != nc)) {
     fprintf(stderr, "Error while reading size information.\n");
+    fclose(f);
     return -4;
   }
   A->rows = (IT) nr;
   A->columns = (IT) nc;
   A->nnz = (IT) nnz;
 
+  // Read an entry of the file. Entries of pattern matrices have no value.
+  int fields = mm_is_pattern(matcode) ? 2 : 3;
+  auto read_entry = [&]() -> bool {
+      val = 1.0;
+      ret = (fields == 2) ? fscanf(f, "%lu %lu\n", &r, &c)
+                          : fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
+      return ret == fields && r >= 1 && r <= (unsigned long) nr
+                           && c >= 1 && c <= (unsigned long) nc;
+  };
+
   if(symflag){
     fflush(f);
     position = ftell(f);
     counter = 0;
-    for (IT i=0; i<2*nnz; i++){
-        ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-        if(ret == EOF){
-          break;
+    for (int i=0; i<nnz; i++){
+        if(!read_entry()){
+          fprintf(stderr, "Error while reading matrix entries.\n");
+          fclose(f);
+          return -5;
         }else{
           if(r==c){
             counter += 1;
@@ -106,18 +122,18 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   allocate(A, (IT) nnz);
 
   // Read everything as unsigned long and double. Convert to appropriate type later.
-  for (IT i=0; i<nnz; i++){
-      ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-      if(ret == EOF){
-        A->nnz = i;
-        break;
+  for (IT i=0; i<A->nnz; i++){
+      if(!read_entry()){
+        fprintf(stderr, "Error while reading matrix entries.\n");
+        fclose(f);
+        return -5;
       }else{
         set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
 
         // If matrix is symmetric, add symmetric point
         if(symflag && r!=c){
           i++;
-          set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
+          set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) (skewflag ? -val : val));
         }
       }
   }
-- 
2.43.0


From 6796eaffba6af11304157481e31d566ad2513edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 17/71] fix: compute dimensions and check lengths when reading
 three binary files

Dimensions were computed from variables that were never set, the column file
was closed twice and the value file never, and files with too few entries were
accepted.
---
 include/io/input.h | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index b95a98a..22303f7 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -158,6 +158,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read row file to the end to get size
   size = (IT) get_file_size(file_val) / sizeof(T);
+  size_t counter = 0;
 
   // Allocate memory
   allocate(A, size);
@@ -169,7 +170,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->I, sizeof(IT), size, fr);
+  counter += fread(A->I, sizeof(IT), size, fr);
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
   }
@@ -183,7 +184,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->J, sizeof(IT), size, fc);
+  counter += fread(A->J, sizeof(IT), size, fc);
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
   }
@@ -192,13 +193,18 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read value file
   fv = fopen(file_val, "rb");
-  if (fc == NULL) {
+  if (fv == NULL) {
     fprintf(stderr, "Cannot open values file.\n");
     return -1;
   }
 
-  fread(A->val, sizeof(T), size, fv);
-  fclose(fc);
+  counter += fread(A->val, sizeof(T), size, fv);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
@@ -219,8 +225,9 @@ template <typename T, typename IT,
 int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
   T vbuffer;
-  IT size, counter, buffer;
-  IT max_row, max_col;
+  IT size, buffer;
+  IT max_row = 0, max_col = 0;
+  size_t counter = 0;
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
@@ -240,6 +247,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
+    if (buffer > max_row) max_row = buffer;
   }
 
   fclose(fr);
@@ -256,6 +264,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
+    if (buffer > max_col) max_col = buffer;
   }
 
   fclose(fc);
@@ -274,7 +283,13 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     A->set_value(i, vbuffer);
   }
 
-  fclose(fc);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size)
+  {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
-- 
2.43.0


From afedda4e08763e4c691be4f592ae09b5eed40cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 18/71] fix: reject .bin files that are too short or index
 outside the matrix

Any number of non-zeros in the header was allocated, and row and column indices
were never compared to the dimensions, so a corrupt file led to memory
corruption in every conversion.
---
 include/io/input.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 22303f7..bb2b28f 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -305,9 +305,11 @@ template <typename T, typename IT,
           template <typename, typename> class COO>
 int read_bin_COO(COO<T,IT> * A, const char * filename)
 {
-    IT counter, buffer;
+    IT buffer;
     T vbuffer;
     FILE * f;
+    size_t counter, max_nnz;
+    bool valid = true;
 
     f = fopen(filename, "rb");
     if (f == NULL) {
@@ -322,9 +324,18 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     counter += fread(&(A->nnz), sizeof(IT), 1, f);
     if (counter != 3) {
         fprintf(stderr, "Failed to read matrix header.\n");
+        fclose(f);
         return -2;
     }
 
+    // Do not trust the header before allocating memory
+    max_nnz = (get_file_size(filename) - 3*sizeof(IT)) / (2*sizeof(IT) + sizeof(T));
+    if (A->nnz < 0 || A->nnz > max_nnz) {
+        fprintf(stderr, "Failed to read matrix.\n");
+        fclose(f);
+        return -3;
+    }
+
     // Memory allocation
     allocate(A, A->nnz);
 
@@ -333,12 +344,14 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     for (IT i=0; i<A->nnz; i++)
     {
         counter += fread(&buffer, sizeof(IT), 1, f);
+        if (buffer < 0 || buffer >= A->rows) valid = false;
         A->set_row_index(i, buffer);
     }
 
     for (IT i=0; i<A->nnz; i++)
     {
         counter += fread(&buffer, sizeof(IT), 1, f);
+        if (buffer < 0 || buffer >= A->columns) valid = false;
         A->set_column_index(i, buffer);
     }
 
@@ -348,13 +361,14 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
         A->set_value(i, vbuffer);
     }
 
-    if (counter != 3 * A->nnz)
+    fclose(f);
+
+    if (counter != 3 * (size_t) A->nnz || !valid)
     {
         fprintf(stderr, "Failed to read matrix.\n");
         return -4;
     }
 
-    fclose(f);
     return 0;
 }
 
-- 
2.43.0


From 0fc78dc59adaae2465c9f7f6a39eaf3ce20b1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 19/71] fix: make read_bin_CSR work for Csr2

It used a member that does not exist, read values with the size of an index,
and allocated one row pointer too few.
---
 include/io/input.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index bb2b28f..2328c15 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -464,8 +464,8 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
   fread(&nnz, sizeof(IT), 1, f);
 
   // Allocate memory
-  A->nonzeros = new NonZero<T,IT>[nnz];
-  A->row_ptr = new IT[A->rows]();
+  A->data = new NonZero<T,IT>[nnz];
+  A->row_ptr = new IT[A->rows + 1]();
 
   // Read data section
   for(IT i=0; i<nnz; i++){
@@ -474,10 +474,10 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
   }
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].index), sizeof(IT), 1, f);
+    fread(&(A->data[i].index), sizeof(IT), 1, f);
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].val), sizeof(IT), 1, f);
+    fread(&(A->data[i].val), sizeof(T), 1, f);
 
   fclose(f);
 
-- 
2.43.0


From ca2251c2b8810025faaff3a5be6469cab05a2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 20/71] fix: check that read_bin_CSR could read the whole
 matrix

A truncated file was read as if complete, counting stale or uninitialised rows.
---
 include/io/input.h | 53 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 2328c15..5506248 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -399,6 +399,7 @@ template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
+  size_t counter = 0;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -408,9 +409,14 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter += fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+  if(counter != 3){
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   DEBUG(puts("Reading header done"));
 
@@ -423,12 +429,20 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 
   // Read data section
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    if(fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows){
+      fprintf(stderr, "Failed to read matrix.\n");
+      fclose(f);
+      return -4;
+    }
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
   }
-  fread(A->col_ind, sizeof(IT), nnz, f);
-  fread(A->val, sizeof(T), nnz, f);
+  counter  = fread(A->col_ind, sizeof(IT), nnz, f);
+  counter += fread(A->val, sizeof(T), nnz, f);
   fclose(f);
+  if(counter != 2 * (size_t) nnz){
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   DEBUG(puts("Reading data done"));
 
@@ -450,6 +464,7 @@ template <class T, class IT>
 int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
+  size_t counter = 0;
 
   // Open file for writing
   FILE * f = fopen(filename, "rb");
@@ -459,9 +474,14 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter += fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+  if(counter != 3){
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   // Allocate memory
   A->data = new NonZero<T,IT>[nnz];
@@ -469,17 +489,26 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
 
   // Read data section
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    if(fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows){
+      fprintf(stderr, "Failed to read matrix.\n");
+      fclose(f);
+      return -4;
+    }
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
   }
 
+  counter = 0;
   for(IT i=0; i<nnz; i++)
-    fread(&(A->data[i].index), sizeof(IT), 1, f);
+    counter += fread(&(A->data[i].index), sizeof(IT), 1, f);
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->data[i].val), sizeof(T), 1, f);
+    counter += fread(&(A->data[i].val), sizeof(T), 1, f);
 
   fclose(f);
+  if(counter != 2 * (size_t) nnz){
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Get row pointers from row non-zero counters
   for(IT i=0; i<A->rows; i++){
-- 
2.43.0


From 5c97919102dc70bd564f555be7952fcc327399df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 21/71] fix: write MatrixMarket values with enough digits

%f keeps six decimals, so small values were written as zero.
---
 include/io/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/io/output.h b/include/io/output.h
index b728494..fdf0cd6 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -66,7 +66,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
     val = A->get_value(i);
 
     // MM uses 1-based indexing
-    fprintf(f, "%lu %lu %f\n", r+1, c+1, (double) val);
+    fprintf(f, "%lu %lu %.17g\n", r+1, c+1, (double) val);
   }
 
   // Close file
-- 
2.43.0


From f44f9e8a9a581876169d022487d5cd6c81e6258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 22/71] fix: report errors while writing output files

All write functions returned success when the disk was full.
---
 include/io/output.h | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index fdf0cd6..fd0e41d 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -6,6 +6,20 @@
 #include "common.h"
 #include "matrix/coo.3.h"
 
+/*
+ * Close a file that was open for writing. Returns 0 if everything written to
+ * it reached the disk, a negative number otherwise.
+ */
+inline int close_output(FILE * f)
+{
+  int error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "Error while writing output file.\n");
+    return -2;
+  }
+  return 0;
+}
+
 /*
  * Write binary data to a file.
  */
@@ -19,9 +33,8 @@ int write_bin_array(const char * filename, T * data, size_t num )
   f = fopen(filename, "wb");
   if (f==NULL) return -1;
   ret = fwrite(data, sizeof(T), num, f);
-  if (ret < num) return -2;
+  if (close_output(f) != 0 || ret < num) return -2;
 
-  fclose(f);
   return 0;
 }
 
@@ -70,8 +83,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   }
 
   // Close file
-  fclose(f);
-  return 0;
+  return close_output(f);
 }
 
 /*
@@ -85,7 +97,7 @@ template <typename T, typename IT,
 int write_bin_COO(COO<T,IT> * A,
         const char * file_row, const char * file_col, const char * file_val)
 {
-  int ret;
+  int ret = 0;
   T val;
   IT i, r, c;
   IT nrows = A->rows;
@@ -108,7 +120,7 @@ int write_bin_COO(COO<T,IT> * A,
     r = A->get_row_index(i);
     fwrite(&r, sizeof(IT), 1, fr);
   }
-  fclose(fr);
+  if (close_output(fr) != 0) ret = -2;
 
   // Write column file
   for (i=0; i<size; i++)
@@ -116,7 +128,7 @@ int write_bin_COO(COO<T,IT> * A,
     c = A->get_column_index(i);
     fwrite(&c, sizeof(IT), 1, fc);
   }
-  fclose(fc);
+  if (close_output(fc) != 0) ret = -2;
 
   // Write value file
   for (i=0; i<size; i++)
@@ -124,9 +136,9 @@ int write_bin_COO(COO<T,IT> * A,
     val = A->get_value(i);
     fwrite(&val, sizeof(T), 1, fv);
   }
-  fclose(fv);
+  if (close_output(fv) != 0) ret = -2;
 
-  return 0;
+  return ret;
 }
 
 /*
@@ -169,8 +181,7 @@ int write_bin_COO(COO<T,IT> A, const char * filename)
         fwrite(&vbuffer, sizeof(T), 1, f);
     }
 
-    fclose(f);
-    return 0;
+    return close_output(f);
 }
 
 /*
@@ -204,8 +215,7 @@ int write_bin_blocked(Coo3<T, IT> A, const char * filename)
     fwrite(&(A.elements[i].val) , sizeof(T), 1, f);
   }
 
-  fclose(f);
-  return 0;
+  return close_output(f);
 }
 
 #endif
-- 
2.43.0


From 0ba48e52be7f9494af43b9c31552fe4ab18ddaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 23/71] fix: compute the range of small indices without
 overflow

1 << 32 is undefined for int, so valid 64/32-bit index combinations failed the
sanity check.
---
 include/matrix/block_coo.1.h | 2 +-
 include/matrix/block_coo.2.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index c41d9c0..98b28d9 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -48,7 +48,7 @@ int Coo_to_Coo(BlockCoo<T,IT,SIT> * A, NONZERO * array, IT nnz)
 
   if (sizeof(IT) > sizeof(SIT))
   {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = IT(1) << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++)
     {
         assert(array[i].row < max_index && array[i].col < max_index);
diff --git a/include/matrix/block_coo.2.h b/include/matrix/block_coo.2.h
index b6eea53..4d96c29 100644
--- a/include/matrix/block_coo.2.h
+++ b/include/matrix/block_coo.2.h
@@ -36,7 +36,7 @@ int Coo_to_Coo(BlockCoo2<T,IT,SIT> * A, NONZERO * array, IT nnz)
   allocate(A, nnz);
 
   if (sizeof(IT) > sizeof(SIT)) {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = IT(1) << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++) {
         assert(array[i].row < max_index && array[i].col < max_index);
     }
-- 
2.43.0


From e2489a239fc5c89b56020d913c7431cb32d8ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 24/71] fix: refuse block indices that do not fit in the small
 index type

Only BlockCoo checked. Other blocks truncated the index and the product was
silently wrong.
---
 include/matrix/block_csr.h | 1 +
 include/matrix/blocks.h    | 1 +
 include/matrix/coo.1.h     | 1 +
 include/matrix/cswr.h      | 2 +-
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/matrix/block_csr.h b/include/matrix/block_csr.h
index a5cd3d7..2e2f837 100644
--- a/include/matrix/block_csr.h
+++ b/include/matrix/block_csr.h
@@ -51,6 +51,7 @@ int Coo_to_Csr(BlockCsr<T,IT,SIT> * A, NONZERO * nonzeros,
   for (IT i=0; i<nnz; i++)
   {
     A->col_ind[i] = nonzeros[i].col;
+    assert(A->col_ind[i] == nonzeros[i].col); // Index must fit in SIT
     A->val[i] = nonzeros[i].val;
     (A->row_ptr[nonzeros[i].row + 1])++;
   }
diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index 050d317..f4b92a6 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -32,6 +32,7 @@ struct BlockCsrSerial : public BlockBase<T,IT>
 
         for (IT i=0; i<nnz; i++) {
             col_ind[i] = array[i].col;
+            assert(col_ind[i] == array[i].col); // Index must fit in SIT
             val[i]  = array[i].val;
             row_ptr[array[i].row + 1]++;
         }
diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index 93e01cf..5952d26 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -26,6 +26,7 @@ struct Coo : public BlockBase<T,IT>
         {
             I[i] = array[i].row;
             J[i] = array[i].col;
+            assert(I[i] == array[i].row && J[i] == array[i].col); // Must fit in SIT
             val[i] = array[i].val;
         }
     }
diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index 8c43ab3..f64948b 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -73,7 +73,7 @@ void Coo_to_Cswr (
         A->col[i] = array[i].col;
         A->val[i] = array[i].val;
 
-        assert(A->row[i] < width);
+        assert(A->row[i] == array[i].row % width); // Index must fit in SIT
     }
 
     for (IT j=0; j<A->nwrows; j++) {
-- 
2.43.0


From 9286f6139298e01ae5a591b3abba14b9d0a5df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 25/71] fix: read blocked files with 64-bit indices

UINT_MAX is not the largest value of a 64-bit index, so the first block was
stored far outside the array.
---
 include/io/blocked.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 98f371f..e13a83a 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -2,7 +2,7 @@
 #define _IO_BLOCKED_H_
 #include <cassert>
 #include <cstdio>
-#include <climits>
+#include <limits>
 
 #include "common.h"
 #include "matrix/csr.1.h"
@@ -89,8 +89,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = std::numeric_limits<IT>::max();  // max() + 1 = 0
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -107,7 +107,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
 
       block_index++;
       prev_b = b;
@@ -191,8 +191,8 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = std::numeric_limits<IT>::max();  // max() + 1 = 0
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -209,7 +209,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
 
       block_index++;
       prev_b = b;
@@ -305,7 +305,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     A->blocks[i].rows = 0;
   }
 
-  prev_b = UINT_MAX;
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -320,7 +320,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
     // Check if this is the begining of a new block
     if( b != prev_b){
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
-- 
2.43.0


From b2d1b4cd0e07176c6be39ac8a6b34f5768f2e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 26/71] fix: complete a Csbr matrix that is read from a file

The partition was left uninitialised and row pointers were allocated with
calloc, although release() expects new[].
---
 include/io/blocked.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index e13a83a..91d3209 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -125,11 +125,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
-      if(A->blocks[block_index].row_ptr == NULL){
-        fprintf(stderr, "Could not allocate memory for block.\n");
-        return -5;
-      }
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(cur_row >= br_offset);
@@ -157,6 +153,9 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   }
 
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
+
+  A->balanced = true;
+  partition_init(A);
   return 0;
 }
 
-- 
2.43.0


From 570c8670cac98bb09ce08e08caf932facb0c1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 27/71] fix: do not lose the first non-zero when reading a Cgbr
 matrix

The first element is read before the loop, so the first block was considered one
element shorter. The balanced flag was not set either.
---
 include/io/blocked.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 91d3209..9941212 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -391,7 +391,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   DEBUG(puts("Memory allocation done"));
 
   block_index = 0;
-  block_start = 0;
+  block_start = std::numeric_limits<IT>::max();  // max() + 1 = 0
 
   fread(&prev_b, sizeof(IT), 1, f);
   fread(&cur_row, sizeof(IT), 1, f);
@@ -466,6 +466,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   }
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
+  A->balanced = A->is_balanced();
   partition_init(A);
 
   return 0;
-- 
2.43.0


From f35c825b16bea0ca0af441dba2f6dcfae1c186bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 28/71] fix: use the block sizes given to the blocked drivers

The drivers accept one or three arguments, so argc is never 5 and the block
sizes were silently ignored.
---
 src/drivers/blocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/blocked.cpp b/src/drivers/blocked.cpp
index de3c5ed..2203293 100644
--- a/src/drivers/blocked.cpp
+++ b/src/drivers/blocked.cpp
@@ -41,7 +41,7 @@ int main(int argc, char * argv[])
     }
     printf(" done in %.4f sec\n", t);
 
-    if (argc == 5) {
+    if (argc == 4) {
 
         // Reading block sizes for rows
         printf("Reading block-row sizes from disk..."); fflush(stdout);
-- 
2.43.0


From 5ed846f5003336d2bf4513bd6c25425999453b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 29/71] fix: keep the dimensions defined by block sizes in
 convert_blocked and prepare

read_bin_COO() overwrites them with the largest index plus one, so the header did
not agree with the blocks if the last row or column was empty, and
read_bin_blocked() refused the file.
---
 src/tools/convert_blocked.cpp | 6 ++++--
 src/tools/prepare.cpp         | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7eb6c51..7d21f19 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -52,8 +52,7 @@ int main(int argc, char * argv[]){
   }
   size_to_offset(block_offsets, block_sizes, A.blockrows);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
+  INDEXTYPE size_sum = block_offsets[A.blockrows];
   free(block_sizes);  // Block sizes not needed anymore
 
   printf("Reading matrix from disk..."); fflush(stdout);
@@ -66,6 +65,9 @@ int main(int argc, char * argv[]){
   }
   printf(" done in %.3f sec\n", t);
 
+  // Dimensions read from the files ignore empty rows and columns at the end
+  A.rows = A.columns = size_sum;
+
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
   printf("Calculating block ids..."); fflush(stdout);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 3a4f9df..71f1e98 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -109,14 +109,16 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
-
   ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
+
+  // Dimensions read from the files ignore empty rows and columns at the end
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
+
   printf("Matrix loaded to memory.\n");
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
-- 
2.43.0


From 3074e088b0cef6fa5dd4b918592c02bf8651bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 30/71] fix: release memory in tools with the function that
 matches its allocation

---
 src/tools/convert_blocked.cpp | 2 +-
 src/tools/expanded.cpp        | 2 +-
 src/tools/permute.cpp         | 4 ++++
 src/tools/prepare.cpp         | 2 +-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7d21f19..b6df32c 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -100,6 +100,6 @@ int main(int argc, char * argv[]){
     printf(" done in %.3f sec\n", t);
   }
 
-  free(A.elements);
+  release(A);
   return 0;
 }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 688c3f2..8ed4b15 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -88,6 +88,6 @@ int main(int argc, char * argv[]){
   // Clean up
   free(block_size);
   free(block_offset);
-  free(A.elements);
+  release(A);
   return 0;
 }
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 8536b35..869ebf3 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -93,6 +93,10 @@ int main(int argc, char * argv[])
   free(I);
 
   // Clean up
+  #ifdef INVPERM
+  delete [] permutation;
+  #else
   free(permutation);
+  #endif
   return 0;
 }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 71f1e98..be02855 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -225,7 +225,7 @@ int main(int argc, char * argv[])
   // Memory clean up
   free(block_sizes);
   free(block_offsets);
-  free(A.elements);
+  release(A);
 
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
-- 
2.43.0


From 92e5f734f07148ff63b9bf128cd957029c367d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 31/71] fix: stop when the input of expanded or pprint cannot
 be read

---
 src/tools/expanded.cpp | 6 +++++-
 src/tools/pprint.c     | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 8ed4b15..281ad41 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -47,7 +47,11 @@ int main(int argc, char * argv[]){
           (unsigned long) A.blockrows);
 
   printf("Reading matrix from disk..."); fflush(stdout);
-  read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  if(ret<0){
+    fprintf(stderr, "Error while reading matrix.\n");
+    return 1;
+  }
   printf(" done\n");
 
   printf("Calculating block ids... "); fflush(stdout);
diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index ac73ef6..cdcadf4 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -38,6 +38,7 @@ int main (int argc, char * argv[])
     f = fopen(argv[1], "rb");
     if(f==NULL){
         fprintf(stderr, "Could not open file.\n");
+        return 1;
     }
 
     switch(mode) {
-- 
2.43.0


From d2c693905ff66dd147c568e611ea57deff6668c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 32/71] fix: build output filenames of tools safely

strncpy() left names of 118 characters or more unterminated, so the output went
to a file with garbage in its name or past the end of the buffer.
---
 src/tools/convert.cpp    |  8 +++-----
 src/tools/double2float.c |  5 ++---
 src/tools/expanded.cpp   |  8 +++-----
 src/tools/one2zero.c     |  5 ++---
 src/tools/permute.cpp    |  8 +++-----
 src/tools/prepare.cpp    | 17 ++++++-----------
 src/tools/sort.cpp       | 14 +++++---------
 7 files changed, 24 insertions(+), 41 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 31e89f7..fc6bba7 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -11,7 +11,7 @@
 
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
-#define FNBUFL 128
+#define FNBUFL 4096
 
 /*
  * This executable reads a matrix in COO format (as Coo3) and an array of block
@@ -63,8 +63,7 @@ int main(int argc, char * argv[])
 
   // Create a matrix market file
   if (mtx) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".mtx");
+    snprintf(buf, FNBUFL, "%s%s", argv[4], ".mtx");
     printf("Writing to file %s ...", buf); fflush(stdout);
     tick();
     ret = write_mm_COO(&A, buf);
@@ -78,8 +77,7 @@ int main(int argc, char * argv[])
 
   // Create a binary triplet file
   if (bin) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".bin");
+    snprintf(buf, FNBUFL, "%s%s", argv[4], ".bin");
     printf("Writing to file %s ...", buf); fflush(stdout);
     tick();
     ret = write_bin_COO(A, buf);
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 33ef055..cf1d819 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -4,7 +4,7 @@
 #include <string.h>
 
 #define SUFFIX ".float"
-#define FNBUFL 128
+#define FNBUFL 4096
 
 #define OLDTYPE double
 #define NEWTYPE float
@@ -25,8 +25,7 @@ int main(int argc, char * argv[])
   for(int i=1; i<argc; i++){
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
-    strcat(buf, SUFFIX);
+    snprintf(buf, FNBUFL, "%s%s", argv[i], SUFFIX);
     printf("Output file : %s\n", buf);
 
     size = 0;
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 281ad41..45976e5 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -10,7 +10,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".exp%lu"
-#define FNBUFL 256
+#define FNBUFL 4096
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
 
@@ -20,7 +20,7 @@ int main(int argc, char * argv[]){
   INDEXTYPE *block_size, *block_offset;
   int i, ret;
   size_t blocks;
-  char buf[FNBUFL], buf2[FNBUFL];
+  char buf[FNBUFL];
   double t;
 
   if (argc < 6){
@@ -76,9 +76,7 @@ int main(int argc, char * argv[]){
   A.columns = new_block_size * A.blockcols;
 
   // Create new filename for output
-  strncpy(buf, argv[5], FNBUFL-10);
-  sprintf(buf2, SUFFIX, (unsigned long) new_block_size);
-  strcat(buf, buf2);
+  snprintf(buf, FNBUFL, "%s" SUFFIX, argv[5], (unsigned long) new_block_size);
   printf("Output file : %s\n", buf);
 
   // Write result to disk
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 9b8520d..13948e8 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -4,7 +4,7 @@
 #include <string.h>
 
 #define SUFFIX ".zero"
-#define FNBUFL 128
+#define FNBUFL 4096
 #define INDEXTYPE uint32_t
 
 int main (int argc, char * argv[])
@@ -22,8 +22,7 @@ int main (int argc, char * argv[])
   for (int i=1; i<argc; i++) {
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
-    strcat(buf, SUFFIX);
+    snprintf(buf, FNBUFL, "%s%s", argv[i], SUFFIX);
     printf("Output file : %s\n", buf);
 
     // Read whole array into memory
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 869ebf3..9c5792a 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -9,7 +9,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".permuted"
-#define FNBUFL 128
+#define FNBUFL 4096
 #define INDEXTYPE uint32_t
 
 int main(int argc, char * argv[])
@@ -53,8 +53,7 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[2], FNBUFL-10);
-  strcat(buf, SUFFIX);
+  snprintf(buf, FNBUFL, "%s%s", argv[2], SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
 
   // Write result to disk
@@ -78,8 +77,7 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[1], FNBUFL-10);
-  strcat(buf, SUFFIX);
+  snprintf(buf, FNBUFL, "%s%s", argv[1], SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
 
   // Write result to disk
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index be02855..c421d73 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -11,7 +11,7 @@
 #include "io/input.h"
 #include "io/output.h"
 
-#define FNBUFL 256
+#define FNBUFL 4096
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
 #define TMPROWS "/tmp/csbr_prepare/rows"
@@ -20,7 +20,7 @@
 int main(int argc, char * argv[])
 {
   int i, ret;
-  char buf[FNBUFL], ext[FNBUFL];
+  char buf[FNBUFL];
   double t;
   size_t perm_size, index_size, blocks;
 
@@ -137,8 +137,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted rows
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".row");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".row");
   printf("Writing to file %s ...", buf); fflush(stdout);
 
   tick();
@@ -164,8 +163,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write file in binary blocked format
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".block");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".block");
 
   printf("Writing to file %s ...", buf); fflush(stdout);
   tick();
@@ -185,8 +183,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".col");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".col");
 
   printf("Writing to file %s ...", buf); fflush(stdout);
   tick();
@@ -206,9 +203,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns and expanded indeces
-  strncpy(buf, argv[6], FNBUFL-20);
-  snprintf(ext, FNBUFL, ".col.exp%lu", (unsigned long) new_block_size);
-  strcat(buf, ext);
+  snprintf(buf, FNBUFL, "%s.col.exp%lu", argv[6], (unsigned long) new_block_size);
   A.rows = new_block_size * A.blockrows;
   A.columns = new_block_size * A.blockcols;
 
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index e9e545e..45724ec 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -9,7 +9,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".sorted"
-#define FNBUFL 128
+#define FNBUFL 4096
 
 int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
@@ -65,16 +65,13 @@ int main(int argc, char * argv[]){
     case 5 :
     case 4 :
       // Create new filenames for output
-      strncpy(buf_row, argv[1], FNBUFL-10);
-      strcat(buf_row, SUFFIX);
+      snprintf(buf_row, FNBUFL, "%s%s", argv[1], SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_row);
 
-      strncpy(buf_col, argv[2], FNBUFL-10);
-      strcat(buf_col, SUFFIX);
+      snprintf(buf_col, FNBUFL, "%s%s", argv[2], SUFFIX);
       fprintf(stdout, "Output file for columns : %s\n", buf_col);
 
-      strncpy(buf_val, argv[3], FNBUFL-10);
-      strcat(buf_val, SUFFIX);
+      snprintf(buf_val, FNBUFL, "%s%s", argv[3], SUFFIX);
       fprintf(stdout, "Output file for values : %s\n", buf_val);
 
       // Write result to disk
@@ -83,8 +80,7 @@ int main(int argc, char * argv[]){
     case 3 :
     case 2 :
       // Create filename for output
-      strncpy(buf_mtx, argv[1], FNBUFL-10);
-      strcat(buf_mtx, SUFFIX);
+      snprintf(buf_mtx, FNBUFL, "%s%s", argv[1], SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_mtx);
 
       // Write result to disk
-- 
2.43.0


From f1c354ffaf23bf49c50cc073de7af89c8bddab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 33/71] fix: sort by blocks in the sort tool

It read a missing argument when given a MatrixMarket file and passed block sizes
where offsets are expected.
---
 src/tools/sort.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 45724ec..dda2a19 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -15,7 +15,7 @@ int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
-  uint32_t * block_sizes;
+  uint32_t * block_sizes, * block_offsets;
   char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
 
   // Read files
@@ -27,7 +27,7 @@ int main(int argc, char * argv[]){
                             (&A, argv[1], argv[2], argv[3]);
       break;
     case 3 :
-      ret2 = read_bin_array(argv[4], &block_sizes, &size );
+      ret2 = read_bin_array(argv[2], &block_sizes, &size );
     case 2 :
       ret1 = read_mm_COO(&A, argv[1]);
       break;
@@ -50,8 +50,11 @@ int main(int argc, char * argv[]){
     case 5 :
     case 3 :
       // Sort according to blocks
+      block_offsets = new uint32_t[size + 1];
+      size_to_offset(block_offsets, block_sizes, (uint32_t) size);
       sort_triplets_blocks(A.triplets, A.nnz,
-            block_sizes, (uint32_t) size, block_sizes, (uint32_t) size);
+            block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
+      delete [] block_offsets;
       break;
     case 4 :
     case 2 :
-- 
2.43.0


From b721999253a5a333943167d373ddedf37a7edb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 34/71] fix: report write errors in one2zero and double2float

---
 src/tools/double2float.c | 6 +++++-
 src/tools/one2zero.c     | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index cf1d819..594b803 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -44,7 +44,11 @@ int main(int argc, char * argv[])
     }
 
     fclose(f_in);
-    fclose(f_out);
+    int error = ferror(f_out);
+    if(fclose(f_out) != 0 || error){
+      fprintf(stderr, "Error while writing output file. Aborting.\n");
+      exit(1);
+    }
 
     printf("Conversion complete : %lu values\n", size);
   }
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 13948e8..0364f9e 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -59,8 +59,11 @@ int main (int argc, char * argv[])
       return 1;
     }
 
-    fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
-    fclose(f_out);
+    size = fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
+    if (fclose(f_out) != 0 || size != n) {
+      fprintf(stderr, "Error while writing output file. Aborting.\n");
+      return 1;
+    }
 
     printf("Conversion complete : %lu values\n", (unsigned long ) n);
     free(indeces);
-- 
2.43.0


From ff670480b6c01a0a3aa6c73cde2519603b8ea769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 35/71] fix: include cassert where asserts are used

---
 include/matrix/block_csr.h | 2 ++
 include/matrix/blocks.h    | 1 +
 include/matrix/cgbr.2.h    | 1 +
 include/matrix/coo.1.h     | 1 +
 4 files changed, 5 insertions(+)

diff --git a/include/matrix/block_csr.h b/include/matrix/block_csr.h
index 2e2f837..c125b88 100644
--- a/include/matrix/block_csr.h
+++ b/include/matrix/block_csr.h
@@ -1,6 +1,8 @@
 #ifndef _BLOCK_CSR_H_
 #define _BLOCK_CSR_H_
 
+#include <cassert>
+
 /*
  * CSR matrix represented as an array of row pointers and two arrays for
  * non-zero values and column indexes.
diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index f4b92a6..81f16c5 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -1,6 +1,7 @@
 #ifndef _BLOCKS_H_
 #define _BLOCKS_H_
 
+#include <cassert>
 #include "typedefs.h"
 #include "utils.h"
 #include "generic/base.h"
diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index fe8ab39..4706b22 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -1,6 +1,7 @@
 #ifndef _CGBR_2_H_
 #define _CGBR_2_H_
 
+#include <cassert>
 #include "typedefs.h"
 #include "blocks.h"
 #include "utils.h"
diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index 5952d26..bf06231 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -1,6 +1,7 @@
 #ifndef _COO_1_H_
 #define _COO_1_H_
 
+#include <cassert>
 #include "typedefs.h"
 #include "generic/coo.h"
 #include "generic/base.h"
-- 
2.43.0


From 80b5eca4c0488b32f75acb0a0c8b6f2bce43101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 36/71] fix: pick block sizes of large matrices without
 overflow

---
 include/utils.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index ee5ccbe..90945f3 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -14,8 +14,8 @@ template <class IT>
 IT pick_block_size(IT m, IT n, size_t val_size, int workers)
 {
     bool ispar = (workers > 1);
-    IT roundrowup = next_power_of_two(m);
-    IT roundcolup = next_power_of_two(n);
+    uint64_t roundrowup = next_power_of_two(m);
+    uint64_t roundcolup = next_power_of_two(n);
 
     // if indices are negative, highestbitset returns -1,
     // but that will be caught by the sizereq below
@@ -23,8 +23,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT colbits = highest_bit_set(roundcolup);
     bool sizereq;
     if (ispar) {
-    	sizereq = ( (1 << rowbits) > SLACKNESS * workers) &&
-    		      ( (1 << colbits) > SLACKNESS * workers);
+    	sizereq = ( roundrowup > uint64_t(SLACKNESS) * workers) &&
+    		      ( roundcolup > uint64_t(SLACKNESS) * workers);
     } else {
     	sizereq = ((rowbits > 1) && (colbits > 1));
     }
@@ -32,7 +32,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     if (!sizereq) {
     	// Too small to be split in both dimensions. Use blocks as large as the
     	// matrix, as long as subx and suby still fit in L2 cache.
-    	IT size = std::max(roundrowup, roundcolup);
+    	uint64_t size = std::max(roundrowup, roundcolup);
     	while (size > 1 && size * val_size > L2SIZE / 2) size /= 2;
     	return size;
     }
@@ -45,14 +45,14 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT rowhighbits = rowbits-rowlowbits;	// # higher order bits for rows (has at least one bit)
     IT colhighbits = colbits-collowbits;	// # higher order bits for cols (has at least one bit)
     if(ispar) {
-    	while( (1 << rowhighbits) < SLACKNESS * workers) {
+    	while( (uint64_t(1) << rowhighbits) < uint64_t(SLACKNESS) * workers) {
     		rowhighbits++;
     		rowlowbits--;
     	}
     }
 
     // calculate the space that suby occupies in L2 cache
-    IT yL2 = (1 << rowlowbits) * val_size;
+    uint64_t yL2 = (uint64_t(1) << rowlowbits) * val_size;
     while(yL2 > L2SIZE)
     {
     	yL2 /= 2;
@@ -61,7 +61,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that subx occupies in L2 cache
-    IT xL2 = (1 << collowbits) * val_size;
+    uint64_t xL2 = (uint64_t(1) << collowbits) * val_size;
     while(xL2 > L2SIZE)
     {
     	xL2 /= 2;
-- 
2.43.0


From c3c892caa1090749369d61dd7c073ab6536cf419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 37/71] fix: do not allocate memory for MatrixMarket entries
 that the file cannot hold

---
 include/io/input.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/io/input.h b/include/io/input.h
index 5506248..85a11dc 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -82,6 +82,18 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
     fclose(f);
     return -4;
   }
+
+  // Do not trust the header before allocating memory. Every entry is a line
+  // of two numbers at least.
+  position = ftell(f);
+  if (fseek(f, 0, SEEK_END) == 0) {
+    if ((unsigned long) nnz > (ftell(f) - position) / 4 + 1) {
+      fprintf(stderr, "Error while reading matrix entries.\n");
+      fclose(f);
+      return -5;
+    }
+    fseek(f, position, SEEK_SET);
+  }
   A->rows = (IT) nr;
   A->columns = (IT) nc;
   A->nnz = (IT) nnz;
-- 
2.43.0


From d02c16ed6f2fad93e614edc9c7b1e740cd67084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 38/71] fix: refuse three binary files that do not make up a
 matrix

---
 include/io/input.h | 53 +++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 85a11dc..c49ad12 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -3,6 +3,7 @@
 
 #include <cassert>
 #include <cstdio>
+#include <limits>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -168,9 +169,16 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
   IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
-  // Read row file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
   size_t counter = 0;
+  bool valid = true;
+
+  // Open values file and get its size
+  fv = fopen(file_val, "rb");
+  if (fv == NULL) {
+    fprintf(stderr, "Cannot open values file.\n");
+    return -1;
+  }
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -179,41 +187,42 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
   fr = fopen(file_row, "rb");
   if (fr == NULL) {
     fprintf(stderr, "Cannot open row file.\n");
+    fclose(fv);
     return -1;
   }
 
   counter += fread(A->I, sizeof(IT), size, fr);
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
+    if(A->I[i] < 0 || A->I[i] == std::numeric_limits<IT>::max()) valid = false;
   }
 
+  if (fgetc(fr) != EOF) valid = false;
   fclose(fr);
 
   // Read column file
   fc = fopen(file_col, "rb");
   if (fc == NULL) {
     fprintf(stderr, "Cannot open column file.\n");
+    fclose(fv);
     return -1;
   }
 
   counter += fread(A->J, sizeof(IT), size, fc);
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
+    if(A->J[i] < 0 || A->J[i] == std::numeric_limits<IT>::max()) valid = false;
   }
 
+  if (fgetc(fc) != EOF) valid = false;
   fclose(fc);
 
   // Read value file
-  fv = fopen(file_val, "rb");
-  if (fv == NULL) {
-    fprintf(stderr, "Cannot open values file.\n");
-    return -1;
-  }
-
   counter += fread(A->val, sizeof(T), size, fv);
+  if (fgetc(fv) != EOF) valid = false;
   fclose(fv);
 
-  if (counter != 3 * (size_t) size) {
+  if (counter != 3 * (size_t) size || !valid) {
     fprintf(stderr, "Failed to read matrix.\n");
     return -4;
   }
@@ -240,10 +249,16 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   IT size, buffer;
   IT max_row = 0, max_col = 0;
   size_t counter = 0;
+  bool valid = true;
   FILE *fr, *fc, *fv;
 
-  // Read values file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  // Open values file and get its size
+  fv = fopen(file_val, "rb");
+  if (fv == NULL) {
+    fprintf(stderr, "Cannot open values file.\n");
+    return -1;
+  }
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -252,6 +267,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   fr = fopen(file_row, "rb");
   if (fr == NULL) {
     fprintf(stderr, "Cannot open row file.\n");
+    fclose(fv);
     return -1;
   }
 
@@ -260,8 +276,10 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
     if (buffer > max_row) max_row = buffer;
+    if (buffer < 0 || buffer == std::numeric_limits<IT>::max()) valid = false;
   }
 
+  if (fgetc(fr) != EOF) valid = false;
   fclose(fr);
 
   // Read column file
@@ -269,6 +287,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   if (fc == NULL)
   {
     fprintf(stderr, "Cannot open column file.\n");
+    fclose(fv);
     return -1;
   }
 
@@ -277,27 +296,23 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
     if (buffer > max_col) max_col = buffer;
+    if (buffer < 0 || buffer == std::numeric_limits<IT>::max()) valid = false;
   }
 
+  if (fgetc(fc) != EOF) valid = false;
   fclose(fc);
 
   // Read value file
-  fv = fopen(file_val, "rb");
-  if (fv == NULL)
-  {
-    fprintf(stderr, "Cannot open values file.\n");
-    return -1;
-  }
-
   for (IT i=0; i<size; i++)
   {
     counter += fread(&vbuffer, sizeof(T), 1, fv);
     A->set_value(i, vbuffer);
   }
 
+  if (fgetc(fv) != EOF) valid = false;
   fclose(fv);
 
-  if (counter != 3 * (size_t) size)
+  if (counter != 3 * (size_t) size || !valid)
   {
     fprintf(stderr, "Failed to read matrix.\n");
     return -4;
-- 
2.43.0


From 9e0fcfe453ed40f38315fa4d530a5f60355408da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 39/71] fix: refuse .bin files with negative sizes or row
 indices

---
 include/io/input.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index c49ad12..73a1aa4 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -357,7 +357,7 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
 
     // Do not trust the header before allocating memory
     max_nnz = (get_file_size(filename) - 3*sizeof(IT)) / (2*sizeof(IT) + sizeof(T));
-    if (A->nnz < 0 || A->nnz > max_nnz) {
+    if (A->rows < 0 || A->columns < 0 || A->nnz < 0 || A->nnz > max_nnz) {
         fprintf(stderr, "Failed to read matrix.\n");
         fclose(f);
         return -3;
@@ -456,7 +456,7 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 
   // Read data section
   for(IT i=0; i<nnz; i++){
-    if(fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows){
+    if(fread(&current_row, sizeof(IT), 1, f) != 1 || current_row < 0 || current_row >= A->rows){
       fprintf(stderr, "Failed to read matrix.\n");
       fclose(f);
       return -4;
@@ -516,7 +516,7 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
 
   // Read data section
   for(IT i=0; i<nnz; i++){
-    if(fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows){
+    if(fread(&current_row, sizeof(IT), 1, f) != 1 || current_row < 0 || current_row >= A->rows){
       fprintf(stderr, "Failed to read matrix.\n");
       fclose(f);
       return -4;
-- 
2.43.0


From bc724c5487b37249c8173d95f21e968c5b9661da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 40/71] fix: refuse MatrixMarket numbers with trailing
 characters

---
 dep/mm_io/mm_io.c  |  5 +++--
 include/io/input.h | 12 +++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index fdde60c..044c301 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -431,7 +431,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  int num_items_read, end = 0;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -451,7 +451,8 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 /*
   line[] is either blank or has M,N, nz
 */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
+  if (sscanf(line, "%d %d %d%n", M, N, nz, &end) == 3 &&
+      (line[end] == '\0' || isspace((unsigned char) line[end])))
   {
     return 0;
   }
diff --git a/include/io/input.h b/include/io/input.h
index 73a1aa4..1e3b574 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -2,6 +2,7 @@
 #define _INPUT_H_
 
 #include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <limits>
 
@@ -101,11 +102,16 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 
   // Read an entry of the file. Entries of pattern matrices have no value.
   int fields = mm_is_pattern(matcode) ? 2 : 3;
+  // Numbers end at white space, or at the end of the file.
   auto read_entry = [&]() -> bool {
+      char s1 = ' ', s2 = ' ';
       val = 1.0;
-      ret = (fields == 2) ? fscanf(f, "%lu %lu\n", &r, &c)
-                          : fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-      return ret == fields && r >= 1 && r <= (unsigned long) nr
+      ret = (fields == 2) ? fscanf(f, "%lu%c%lu", &r, &s1, &c) - 1
+                          : fscanf(f, "%lu%c%lu%c%lg", &r, &s1, &c, &s2, &val) - 2;
+      int next = fgetc(f);
+      return ret == fields && isspace((unsigned char) s1) && isspace((unsigned char) s2)
+                           && (next == EOF || isspace(next))
+                           && r >= 1 && r <= (unsigned long) nr
                            && c >= 1 && c <= (unsigned long) nc;
   };
 
-- 
2.43.0


From d5eaccd7c2174440a66d8708b6fb9c3d6c118b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 41/71] fix: close files that could be opened when another one
 could not

---
 include/io/output.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/io/output.h b/include/io/output.h
index fd0e41d..bfbf44c 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -111,6 +111,9 @@ int write_bin_COO(COO<T,IT> * A,
 
   if (fv == NULL || fr == NULL || fc == NULL) {
     fprintf(stderr, "Cannot open one of the files.\n");
+    if (fv != NULL) fclose(fv);
+    if (fr != NULL) fclose(fr);
+    if (fc != NULL) fclose(fc);
     return -1;
   }
 
-- 
2.43.0


From d363fd52127c6682cfc6e06f5de1597763c872a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 42/71] fix: picked block size must be countable by the index
 type

---
 include/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils.h b/include/utils.h
index 90945f3..4002a5f 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -34,6 +34,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     	// matrix, as long as subx and suby still fit in L2 cache.
     	uint64_t size = std::max(roundrowup, roundcolup);
     	while (size > 1 && size * val_size > L2SIZE / 2) size /= 2;
+    	while (size > uint64_t(std::numeric_limits<IT>::max())) size /= 2;
     	return size;
     }
 
-- 
2.43.0


From 670437b79178716c8de9724330fdc99e1c7661f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 43/71] fix: request aligned vectors in multiples of the
 alignment

---
 include/common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common.h b/include/common.h
index 49b07a3..354ef38 100644
--- a/include/common.h
+++ b/include/common.h
@@ -29,7 +29,7 @@ int highest_bit_set(int v);
 template <class T, class IT>
 void vector_random (T **x, IT size)
 {
-    *x = static_cast<T*>(aligned_alloc(64, size * sizeof(T)));
+    *x = static_cast<T*>(aligned_alloc(64, (size * sizeof(T) + 63) / 64 * 64));
 
     for (IT i=0; i<size; i++)
     {
@@ -40,7 +40,7 @@ void vector_random (T **x, IT size)
 template <class T, class IT>
 void vector_zero (T **x, IT size)
 {
-    *x = static_cast<T*>(aligned_alloc(64, size * sizeof(T)));
+    *x = static_cast<T*>(aligned_alloc(64, (size * sizeof(T) + 63) / 64 * 64));
 
     for (IT i=0; i<size; i++)
     {
-- 
2.43.0


From dde8b51026c644b02eba8ea78635808d67414d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 44/71] fix: refuse MatrixMarket files too large for the index
 type

---
 include/io/input.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 1e3b574..be175a3 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -96,6 +96,14 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
     }
     fseek(f, position, SEEK_SET);
   }
+
+  // The index type has to be able to count rows, columns and entries
+  size_t const max_index = (size_t) std::numeric_limits<IT>::max();
+  if ((size_t) nr > max_index || (size_t) nc > max_index || (size_t) nnz > max_index) {
+    fprintf(stderr, "Matrix is too large for the index type.\n");
+    fclose(f);
+    return -6;
+  }
   A->rows = (IT) nr;
   A->columns = (IT) nc;
   A->nnz = (IT) nnz;
@@ -132,13 +140,17 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
           }
         }
     }
-    nnz = counter;
-    A->nnz = (IT) nnz;
+    if (counter > max_index) {
+      fprintf(stderr, "Matrix is too large for the index type.\n");
+      fclose(f);
+      return -6;
+    }
+    A->nnz = (IT) counter;
     fseek(f,position,SEEK_SET);
   }
 
   // Allocate memory
-  allocate(A, (IT) nnz);
+  allocate(A, A->nnz);
 
   // Read everything as unsigned long and double. Convert to appropriate type later.
   for (IT i=0; i<A->nnz; i++){
-- 
2.43.0


From b4c0cd0d3c390ee093a7ee111d05459167ffdac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 45/71] fix: index dense matrices with size_t, the number of
 elements may not fit the index type

---
 include/matrix/dense.h   | 22 ++++++++++++----------
 include/spmv/dense.h     |  3 ++-
 include/spmv/omp/dense.h |  3 ++-
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 7a69bbd..2b26122 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -2,6 +2,7 @@
 #define _DENSE_H_
 
 #include <cassert>
+#include <cstddef>
 
 #include "typedefs.h"
 #include "matrix/coo.2.h"
@@ -21,13 +22,13 @@ struct DenseSerial : public BlockBase<T,IT>
     DenseSerial(Element<T,IT> * array, IT _rows, IT _columns, IT nnz)
         : rows(_rows), columns(_columns), BlockBase<T,IT>(nnz)
     {
-        IT pos;
+        size_t pos;
 
-        val = new T[rows * columns]();
+        val = new T[(size_t) rows * columns]();
 
         for (IT i=0; i<nnz; i++)
         {
-            pos = array[i].row * columns + array[i].col;
+            pos = (size_t) array[i].row * columns + array[i].col;
             val[pos] += array[i].val;
         }
     }
@@ -102,17 +103,13 @@ template <class NONZERO, class T, class IT,
           template <typename, typename> class DENSE>
 void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT nnz)
 {
-    IT pos, N;
-
-    // Watch out for integer overflow
-    N = rows * columns;
-    assert(N >= rows);
+    size_t pos;
 
     allocate(A, rows, columns);
 
     for (IT i=0; i<nnz; i++)
     {
-        pos = nonzeros[i].row * columns + nonzeros[i].col;
+        pos = (size_t) nonzeros[i].row * columns + nonzeros[i].col;
         A->val[pos] += nonzeros[i].val;
     }
 }
@@ -135,9 +132,14 @@ template <class T, class IT,
           template <typename, typename> class DENSE>
 void allocate(DENSE<T,IT> * A, IT rows, IT columns)
 {
+    size_t N = (size_t) rows * columns;
+
+    // Watch out for integer overflow
+    assert(columns == 0 || N / columns == (size_t) rows);
+
     A->rows = rows;
     A->columns = columns;
-    A->val = new T[rows*columns](); // Zero-initialize
+    A->val = new T[N](); // Zero-initialize
 }
 
 /*
diff --git a/include/spmv/dense.h b/include/spmv/dense.h
index 09b85b2..e0ac728 100644
--- a/include/spmv/dense.h
+++ b/include/spmv/dense.h
@@ -1,5 +1,6 @@
 #ifndef _SPMV_DENSE_H_
 #define _SPMV_DENSE_H_
+#include <cstddef>
 
 template <class T, class IT>
 inline void spmv_dense_serial (
@@ -13,7 +14,7 @@ inline void spmv_dense_serial (
         T temp = y[i];
         for (IT j=0; j<N; j++)
         {
-            temp += val[i*N + j] * x[j];
+            temp += val[(size_t) i*N + j] * x[j];
         }
         y[i] = temp;
     }
diff --git a/include/spmv/omp/dense.h b/include/spmv/omp/dense.h
index 0bdd452..6aa4433 100644
--- a/include/spmv/omp/dense.h
+++ b/include/spmv/omp/dense.h
@@ -1,5 +1,6 @@
 #ifndef _SPMV_DENSE_OMP_H_
 #define _SPMV_DENSE_OMP_H_
+#include <cstddef>
 #include <omp.h>
 
 template <class T, class IT>
@@ -10,7 +11,7 @@ inline void spmv_dense(T const * const val, IT const M, IT const N,
     for (IT i=0; i<M; i++) {
         T temp = y[i];
         for (IT j=0; j<N; j++) {
-            temp += val[i*N + j] * x[j];
+            temp += val[(size_t) i*N + j] * x[j];
         }
         y[i] = temp;
     }
-- 
2.43.0


From a06d79fbc6b68aad9f6ee49927e7713bbff5fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 46/71] fix: tools that cannot write their output end with a
 nonzero status

---
 src/tools/convert.cpp         | 2 ++
 src/tools/convert_blocked.cpp | 1 +
 src/tools/expanded.cpp        | 1 +
 src/tools/permute.cpp         | 2 ++
 src/tools/prepare.cpp         | 4 ++++
 src/tools/sort.cpp            | 1 +
 6 files changed, 11 insertions(+)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index fc6bba7..161aafc 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -70,6 +70,7 @@ int main(int argc, char * argv[])
     t = tock();
     if(ret<0){
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      return 1;
     }else{
       printf(" done in %.3f sec\n", t);
     }
@@ -84,6 +85,7 @@ int main(int argc, char * argv[])
     t = tock();
     if (ret<0) {
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      return 1;
     } else {
       printf(" done in %.3f sec\n", t);
     }
diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index b6df32c..ababdf0 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -96,6 +96,7 @@ int main(int argc, char * argv[]){
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 45976e5..7e8202d 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -83,6 +83,7 @@ int main(int argc, char * argv[]){
   ret = write_bin_COO(A, buf);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 9c5792a..e48d742 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -60,6 +60,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if (ret<0) {
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -84,6 +85,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index c421d73..c4c20eb 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -145,6 +145,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -171,6 +172,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -191,6 +193,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -213,6 +216,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index dda2a19..52a0637 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -94,6 +94,7 @@ int main(int argc, char * argv[]){
   // Check write
   if(ret1<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    return 1;
   }
 
   release(A);
-- 
2.43.0


From a587fabb3f6f1e1907e21f23be50ad41985eb4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 47/71] fix: prepare permutes in memory, runs at the same time
 overwrote each other's files in /tmp

---
 src/tools/prepare.cpp | 62 +++++--------------------------------------
 1 file changed, 7 insertions(+), 55 deletions(-)

diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index c4c20eb..fb141d7 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -14,17 +14,15 @@
 #define FNBUFL 4096
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
-#define TMPROWS "/tmp/csbr_prepare/rows"
-#define TMPCOLS "/tmp/csbr_prepare/cols"
 
 int main(int argc, char * argv[])
 {
   int i, ret;
   char buf[FNBUFL];
   double t;
-  size_t perm_size, index_size, blocks;
+  size_t perm_size, blocks;
 
-  INDEXTYPE *indeces, *permutation_vec;
+  INDEXTYPE *permutation_vec;
   INDEXTYPE *block_sizes, *block_offsets;
   INDEXTYPE new_block_size;
   Coo3<VALUETYPE, INDEXTYPE> A;
@@ -34,9 +32,6 @@ int main(int argc, char * argv[])
     return 1;
   }
 
-  // Set up temporary storage
-  system("mkdir -p /tmp/csbr_prepare");
-
   // Read permutation vector
   ret = read_bin_array(argv[4], &permutation_vec, &perm_size );
   if(ret<0){
@@ -45,50 +40,6 @@ int main(int argc, char * argv[])
   }
   printf("Loaded permutation vector of size %lu\n", perm_size);
 
-  // Permute rows
-  ret = read_bin_array(argv[1], &indeces, &index_size );
-  if(ret<0){
-    fprintf(stderr, "Error while reading row indeces. Error : %d\n", ret);
-    free(permutation_vec);
-    return 1;
-  }
-
-  permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
-
-  // Write permuted row indeces to disk
-  ret = write_bin_array(TMPROWS, indeces, index_size);
-  if(ret<0){
-    fprintf(stderr, "Error while writing result to disk. Error : %d\n", ret);
-    free(indeces);
-    free(permutation_vec);
-    return 1;
-  }
-
-  printf("%lu row indeces permuted.\n", index_size);
-  free(indeces);
-
-  // Permute columns
-  ret = read_bin_array(argv[2], &indeces, &index_size );
-  if(ret<0){
-    fprintf(stderr, "Error while reading column indeces. Error : %d\n", ret);
-    return 1;
-  }
-
-  permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
-
-  // Write permuted column indeces to disk
-  ret = write_bin_array(TMPCOLS, indeces, index_size);
-  if(ret<0){
-    fprintf(stderr, "Error while writing result to disk. Error : %d\n", ret);
-    free(indeces);
-    free(permutation_vec);
-    return 1;
-  }
-
-  printf("%lu column indeces permuted.\n", index_size);
-  free(permutation_vec);
-  free(indeces);
-
   // Read block sizes
   ret = read_bin_array(argv[5], &block_sizes, &blocks );
   if(ret<0){
@@ -109,12 +60,16 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
+  ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
 
+  // Permute rows and columns
+  permute_indeces(A.elements, A.nnz, permutation_vec);
+  free(permutation_vec);
+
   // Dimensions read from the files ignore empty rows and columns at the end
   A.rows = block_offsets[A.blockrows];
   A.columns = block_offsets[A.blockcols];
@@ -226,8 +181,5 @@ int main(int argc, char * argv[])
   free(block_offsets);
   release(A);
 
-  // Clean up temporary storage
-  system("rm -rf /tmp/csbr_prepare");
-
   return 0;
 }
-- 
2.43.0


From 935d3cfb36cbe2e9a5b27887090ecc49c3306034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 48/71] fix: permute, ipermute and prepare refuse indices
 beyond the permutation instead of reading past its end

---
 src/tools/permute.cpp | 21 +++++++++++++++++++++
 src/tools/prepare.cpp |  5 +++++
 2 files changed, 26 insertions(+)

diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index e48d742..c441d59 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -12,6 +12,15 @@
 #define FNBUFL 4096
 #define INDEXTYPE uint32_t
 
+// Check that all indeces are below a limit
+static bool indeces_below(INDEXTYPE const * I, size_t size, size_t limit)
+{
+  for (size_t k=0; k<size; k++) {
+    if (I[k] >= limit) return false;
+  }
+  return true;
+}
+
 int main(int argc, char * argv[])
 {
   INDEXTYPE *I, *permutation, *inv_permutation;
@@ -32,6 +41,10 @@ int main(int argc, char * argv[])
   printf("Reading complete : permutation vector of size %lu\n", perm_size);
 
   #ifdef INVPERM
+  if (!indeces_below(permutation, perm_size, perm_size)) {
+    fprintf(stderr, "This is not a permutation vector.\n");
+    return 1;
+  }
   inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
   if (inv_permutation == NULL) {
     fprintf(stderr, "Could not invert permutation vector\n");
@@ -50,6 +63,10 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu column indeces\n", size);
 
+  if (!indeces_below(I, size, perm_size)) {
+    fprintf(stderr, "Indeces are beyond the permutation vector.\n");
+    return 1;
+  }
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
@@ -75,6 +92,10 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu row indeces\n", size);
 
+  if (!indeces_below(I, size, perm_size)) {
+    fprintf(stderr, "Indeces are beyond the permutation vector.\n");
+    return 1;
+  }
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index fb141d7..0e81434 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -66,6 +66,11 @@ int main(int argc, char * argv[])
     exit(1);
   }
 
+  if (A.nnz > 0 && (A.rows > perm_size || A.columns > perm_size)) {
+    fprintf(stderr, "Matrix has indeces beyond the permutation vector.\n");
+    exit(1);
+  }
+
   // Permute rows and columns
   permute_indeces(A.elements, A.nnz, permutation_vec);
   free(permutation_vec);
-- 
2.43.0


From 46d2a06da38cabd9e3860c94bfca3a30aa1444a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 49/71] fix: convert_blocked, expanded and prepare refuse
 indices beyond the last block instead of writing a matrix with entries
 outside

---
 src/tools/convert_blocked.cpp | 5 +++++
 src/tools/expanded.cpp        | 5 +++++
 src/tools/prepare.cpp         | 7 +++++++
 3 files changed, 17 insertions(+)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index ababdf0..f2c7e07 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -65,6 +65,11 @@ int main(int argc, char * argv[]){
   }
   printf(" done in %.3f sec\n", t);
 
+  if (A.nnz > 0 && (A.rows > size_sum || A.columns > size_sum)) {
+    fprintf(stderr, "Matrix has indeces beyond the last block.\n");
+    exit(1);
+  }
+
   // Dimensions read from the files ignore empty rows and columns at the end
   A.rows = A.columns = size_sum;
 
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 7e8202d..7618b53 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -54,6 +54,11 @@ int main(int argc, char * argv[]){
   }
   printf(" done\n");
 
+  if (A.nnz > 0 && (A.rows > block_offset[blocks] || A.columns > block_offset[blocks])) {
+    fprintf(stderr, "Matrix has indeces beyond the last block.\n");
+    return 1;
+  }
+
   printf("Calculating block ids... "); fflush(stdout);
   tick();
   calculate_block_id(A.elements, A.nnz, block_offset, A.blockrows, block_offset, A.blockcols);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 0e81434..5e1a464 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -75,6 +75,13 @@ int main(int argc, char * argv[])
   permute_indeces(A.elements, A.nnz, permutation_vec);
   free(permutation_vec);
 
+  for (INDEXTYPE k=0; k<A.nnz; k++) {
+    if (A.elements[k].row >= block_offsets[blocks] || A.elements[k].col >= block_offsets[blocks]) {
+      fprintf(stderr, "Matrix has indeces beyond the last block.\n");
+      exit(1);
+    }
+  }
+
   // Dimensions read from the files ignore empty rows and columns at the end
   A.rows = block_offsets[A.blockrows];
   A.columns = block_offsets[A.blockcols];
-- 
2.43.0


From 7606adf9a6445e87e0787defb3374a3e4c765cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 50/71] fix: pbench refuses a permutation whose size is not
 that of the matrix instead of corrupting memory

---
 src/drivers/pbench.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drivers/pbench.cpp b/src/drivers/pbench.cpp
index dfed47b..ad6fa6d 100644
--- a/src/drivers/pbench.cpp
+++ b/src/drivers/pbench.cpp
@@ -56,6 +56,11 @@ int main(int argc, char * argv[])
     }
     printf("Read permutation vector. Size : %lu\n", perm_size);
 
+    if (perm_size != coo.rows || perm_size != coo.columns) {
+        fprintf(stderr, "Size of permutation vector does not match the matrix.\n");
+        return 1;
+    }
+
     #ifdef INVPERM
     inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
     if (inv_permutation == NULL) {
-- 
2.43.0


From 20d5f523a5c5fe368dd2e30752bbd5498f6e0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 51/71] fix: sort refuses a matrix with indeces beyond the
 given block sizes

---
 src/tools/sort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 52a0637..bb65dff 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -52,6 +52,12 @@ int main(int argc, char * argv[]){
       // Sort according to blocks
       block_offsets = new uint32_t[size + 1];
       size_to_offset(block_offsets, block_sizes, (uint32_t) size);
+      for (uint32_t k=0; k<A.nnz; k++) {
+        if (A.triplets[k].row >= block_offsets[size] || A.triplets[k].col >= block_offsets[size]) {
+          fprintf(stderr, "Matrix has indeces beyond the last block.\n");
+          exit(1);
+        }
+      }
       sort_triplets_blocks(A.triplets, A.nnz,
             block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
       delete [] block_offsets;
-- 
2.43.0


From 74ae0b0dd9eed013d1ec0ef1344aec17c5b5a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 52/71] fix: direct CSR readers check sizes and columns before
 trusting a file

---
 include/io/input.h | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index be175a3..4c01d84 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -444,7 +444,8 @@ template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
-  size_t counter = 0;
+  size_t counter = 0, max_nnz;
+  bool valid = true;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -463,12 +464,21 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
     return -2;
   }
 
+  // Do not trust the header before allocating memory
+  max_nnz = (get_file_size(filename) - 3*sizeof(IT)) / (2*sizeof(IT) + sizeof(T));
+  if (A->rows < 0 || A->columns < 0 || nnz < 0 || nnz > max_nnz ||
+      (size_t) A->rows >= std::numeric_limits<size_t>::max() / sizeof(IT)) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    fclose(f);
+    return -3;
+  }
+
   DEBUG(puts("Reading header done"));
 
   // Allocate one memory block for all arrays
   A->val = new T[nnz];
   A->col_ind = new IT[nnz];
-  A->row_ptr = new IT[A->rows + 1]();
+  A->row_ptr = new IT[(size_t) A->rows + 1]();
 
   DEBUG(puts("Memory allocation done"));
 
@@ -484,7 +494,10 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   counter  = fread(A->col_ind, sizeof(IT), nnz, f);
   counter += fread(A->val, sizeof(T), nnz, f);
   fclose(f);
-  if(counter != 2 * (size_t) nnz){
+  for(IT i=0; i<nnz; i++)
+    if(A->col_ind[i] < 0 || A->col_ind[i] >= A->columns) valid = false;
+
+  if(counter != 2 * (size_t) nnz || !valid){
     fprintf(stderr, "Failed to read matrix.\n");
     return -4;
   }
@@ -509,7 +522,8 @@ template <class T, class IT>
 int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
-  size_t counter = 0;
+  size_t counter = 0, max_nnz;
+  bool valid = true;
 
   // Open file for writing
   FILE * f = fopen(filename, "rb");
@@ -528,9 +542,18 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
     return -2;
   }
 
+  // Do not trust the header before allocating memory
+  max_nnz = (get_file_size(filename) - 3*sizeof(IT)) / (2*sizeof(IT) + sizeof(T));
+  if (A->rows < 0 || A->columns < 0 || nnz < 0 || nnz > max_nnz ||
+      (size_t) A->rows >= std::numeric_limits<size_t>::max() / sizeof(IT)) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    fclose(f);
+    return -3;
+  }
+
   // Allocate memory
   A->data = new NonZero<T,IT>[nnz];
-  A->row_ptr = new IT[A->rows + 1]();
+  A->row_ptr = new IT[(size_t) A->rows + 1]();
 
   // Read data section
   for(IT i=0; i<nnz; i++){
@@ -550,7 +573,10 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
     counter += fread(&(A->data[i].val), sizeof(T), 1, f);
 
   fclose(f);
-  if(counter != 2 * (size_t) nnz){
+  for(IT i=0; i<nnz; i++)
+    if(A->data[i].index < 0 || A->data[i].index >= A->columns) valid = false;
+
+  if(counter != 2 * (size_t) nnz || !valid){
     fprintf(stderr, "Failed to read matrix.\n");
     return -4;
   }
-- 
2.43.0


From d151aed38f58a9cc345ee0285c48d5231da36f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 53/71] fix: building blocked CSR from triplets counted every
 block of the grid

The counters of 65536x65536 blocks of one entry wrapped around (32-bit
indices), writing outside the array, and smaller grids took gigabytes for
a handful of entries. Count the blocks that are there instead.
---
 include/matrix/csbr.h | 89 +++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 45 deletions(-)

diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index bb27f6c..5f6b3e8 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -113,32 +113,31 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo2<T, IT> * B,
 
   DEBUG(puts("Sorting complete"));
 
-  // Initialize non-zero counter to zero
-  IT * counter = new IT[blockrows*blockcols]();
-
-  // Count non-zeros of each block
-  for (IT i=0; i<nnz; i++)
-  {
-    br = index_to_blockindex(blockrow_offset, blockrows, B->triplets[i].row);
-    bc = index_to_blockindex(blockcol_offset, blockcols, B->triplets[i].col );
-    counter[br*blockcols + bc]++;
-  }
-
   // Memory allocation for block-row pointers
-  A->blockrow_ptr = (IT *) malloc((blockrows+1) * sizeof(IT));
+  A->blockrow_ptr = (IT *) calloc(blockrows + 1, sizeof(IT));
   A->col_ind = (IT *) malloc( nnz * sizeof(IT));
   A->val = (T *) malloc( nnz * sizeof(T));
 
-  // Count non-zero blocks, calculate block row pointers
+  // Count non-zero blocks, calculate block row pointers. Triplets are sorted,
+  // so a block starts wherever the block index changes.
   nnz_blocks = 0;
-  A->blockrow_ptr[0] = 0;
-  for (IT i=0; i<blockrows; i++)
+  br = bc = 0;
+  for (IT i=0; i<nnz; i++)
   {
-    for (IT j=0; j<blockcols; j++)
+    IT next_br = index_to_blockindex(blockrow_offset, blockrows, B->triplets[i].row);
+    IT next_bc = index_to_blockindex(blockcol_offset, blockcols, B->triplets[i].col);
+
+    if (i == 0 || next_br != br || next_bc != bc)
     {
-      if (counter[i*blockcols + j] > 0) nnz_blocks++ ;
+      nnz_blocks++;
+      A->blockrow_ptr[next_br + 1]++;
     }
-    A->blockrow_ptr[i+1] = nnz_blocks;
+    br = next_br;
+    bc = next_bc;
+  }
+  for (IT i=0; i<blockrows; i++)
+  {
+    A->blockrow_ptr[i+1] = A->blockrow_ptr[i+1] + A->blockrow_ptr[i];
   }
   A->nnzblocks = nnz_blocks;
 
@@ -154,39 +153,39 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo2<T, IT> * B,
     br_offset = blockrow_offset[i];
     br_size = blockrow_offset[i + 1] - br_offset;
 
-    for (IT j=0; j<blockcols; j++)
+    while (block_index < A->blockrow_ptr[i+1])
     {
-      block_nnz = counter[i*blockcols+j];
-      if (block_nnz>0)
+      bc = index_to_blockindex(blockcol_offset, blockcols, B->triplets[val_index].col);
+      bc_offset = blockcol_offset[bc];
+      bc_size = blockcol_offset[bc+1] - bc_offset;
+      A->blockcol_ind[block_index] = bc;
+
+      // Calculate new row and column indexes
+      block_nnz = 0;
+      for (IT k=val_index; k<nnz; k++)
       {
-        bc_offset = blockcol_offset[j];
-        bc_size = blockcol_offset[j+1] - bc_offset;
-        A->blockcol_ind[block_index] = j;
-
-        // Calculate new row and column indexes
-        for (IT k=0; k<block_nnz; k++)
-        {
-          B->triplets[val_index+k].row = B->triplets[val_index+k].row - br_offset;
-          B->triplets[val_index+k].col = B->triplets[val_index+k].col - bc_offset;
-        }
-
-        // Initialize CSR block
-        A->blocks[block_index].col_ind = A->col_ind + val_index;
-        A->blocks[block_index].val = A->val + val_index;
-
-        Coo_to_Csr(A->blocks + block_index, B->triplets + val_index,
-                   br_size, bc_size, block_nnz,
-                   false, false);
-
-        val_index = val_index + block_nnz;
-        block_index++;
+        IT row = B->triplets[k].row - br_offset;
+        IT col = B->triplets[k].col - bc_offset;
+
+        if (row >= br_size || col >= bc_size) break; // Next block
+        B->triplets[k].row = row;
+        B->triplets[k].col = col;
+        block_nnz++;
       }
+
+      // Initialize CSR block
+      A->blocks[block_index].col_ind = A->col_ind + val_index;
+      A->blocks[block_index].val = A->val + val_index;
+
+      Coo_to_Csr(A->blocks + block_index, B->triplets + val_index,
+                 br_size, bc_size, block_nnz,
+                 false, false);
+
+      val_index = val_index + block_nnz;
+      block_index++;
     }
   }
 
-  // Release temporary memory
-  delete [] counter;
-
   partition_init(A);
 }
 
-- 
2.43.0


From 966fc5f673da4d21bf4c6fff71e48f634cda514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 54/71] fix: compressed-row CSR of an empty matrix has no rows
 instead of reading past the end

---
 include/matrix/crcsr.h | 3 +++
 include/utils.h        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 5d01fde..a4c295a 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -42,6 +42,9 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
+    if (nnz == 0)
+        return; // no rows to store
+
     sort_triplets(nonzeros, nnz);
 
     A->nnz_rows[0] = nonzeros[0].row;
diff --git a/include/utils.h b/include/utils.h
index 4002a5f..9713161 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -364,6 +364,9 @@ IT count_blocks(Element<T, IT> * array, IT size)
 template <class NONZERO, class IT>
 IT count_nnz_rows(NONZERO * source, IT nnz)
 {
+  if (nnz == 0)
+    return 0;
+
   IT count=1;
   IT cur_row = source[0].row;
 
-- 
2.43.0


From cdc1b2f61c697f5ca2c5ad1069ed8bde55d0cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:10 +0000
Subject: [PATCH 55/71] fix: count wide rows without overflow

---
 include/matrix/cswr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index f64948b..c0bf84e 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -54,7 +54,7 @@ void Coo_to_Cswr (
     A->columns = columns;
     A->nnz = nnz;
     A->width = width;
-    A->nwrows = (rows + width - 1) / width;
+    A->nwrows = rows / width + (rows % width != 0);
     A->val = new T[nnz];
     A->row = new SIT[nnz];
     A->col = new IT[nnz];
-- 
2.43.0


From d5b18c701a1579bfadb40ee97e2117111dfd327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 56/71] fix: mm_read_mtx_array_size: refuse a size line that is
 not made of numbers

It went on reading for ever, as fscanf never gets past what is not a number.
---
 dep/mm_io/mm_io.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 044c301..8ff1f67 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -191,7 +191,7 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  int num_items_read, end = 0;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -208,23 +208,24 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
     }
   } while ( line[0] == '%' );
 /*
-  line[] is either blank or has M,N, nz
+  line[] is either blank or has M,N
 */
-  if ( sscanf ( line, "%d %d", M, N ) == 2 )
+  if ( sscanf ( line, "%d %d%n", M, N, &end ) == 2 &&
+       ( line[end] == '\0' || isspace ( (unsigned char) line[end] ) ) )
   {
     return 0;
   }
+  else if ( line[strspn ( line, " \t\r\n" )] != '\0' )
+  {
+    return MM_UNSUPPORTED_TYPE;
+  }
   else
   {
-    do
+    num_items_read = fscanf ( f, "%d %d", M, N );
+    if ( num_items_read != 2 )
     {
-      num_items_read = fscanf ( f, "%d %d", M, N );
-      if ( num_items_read == EOF )
-      {
-        return MM_PREMATURE_EOF;
-      }
+      return MM_PREMATURE_EOF;
     }
-    while ( num_items_read != 2 );
   }
   return 0;
 }
-- 
2.43.0


From 754bf73d046e40d82a00d0accd447d6a88e4fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 57/71] fix: mm_read_mtx_crd: refuse what is not read, release
 everything on failure

Integer files were reported as read with nothing filled in; the file and the arrays leaked on every failure; a negative number of entries was not refused.
---
 dep/mm_io/mm_io.c | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 8ff1f67..746e104 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -261,6 +261,9 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
   int ret_code;
   FILE *f;
 
+    *I = *J = NULL;
+    *val = NULL;
+
     if (strcmp(fname, "stdin") == 0) f=stdin;
     else
     if ((f = fopen(fname, "r")) == NULL)
@@ -268,44 +271,45 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
 
 
     if ((ret_code = mm_read_banner(f, matcode)) != 0)
-        return ret_code;
+        goto done;
 
     if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
             mm_is_matrix(*matcode)))
-        return MM_UNSUPPORTED_TYPE;
+    {
+        ret_code = MM_UNSUPPORTED_TYPE;
+        goto done;
+    }
 
     if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
-        return ret_code;
+        goto done;
 
+    if (*nz < 0)
+    {
+        ret_code = MM_UNSUPPORTED_TYPE;
+        goto done;
+    }
 
     *I = (int *)  malloc(*nz * sizeof(int));
     *J = (int *)  malloc(*nz * sizeof(int));
-    *val = NULL;
 
     if (mm_is_complex(*matcode))
-    {
         *val = (double *) malloc(*nz * 2 * sizeof(double));
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                *matcode);
-        if (ret_code != 0) return ret_code;
-    }
     else if (mm_is_real(*matcode))
-    {
         *val = (double *) malloc(*nz * sizeof(double));
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                *matcode);
-        if (ret_code != 0) return ret_code;
-    }
 
-    else if (mm_is_pattern(*matcode))
+    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, *matcode);
+
+done:
+    if (ret_code != 0)
     {
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                *matcode);
-        if (ret_code != 0) return ret_code;
+        free(*I);
+        free(*J);
+        free(*val);
+        *I = *J = NULL;
+        *val = NULL;
     }
-
     if (f != stdin) fclose(f);
-    return 0;
+    return ret_code;
 }
 /******************************************************************************/
 
-- 
2.43.0


From 8f9c2c7e4ad12047fae9f747f721513240b6014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 58/71] fix: mm_read_unsymmetric_sparse: refuse truncated
 files, close the file on failure

The results of fscanf were not checked, so missing entries were reported as read.
---
 dep/mm_io/mm_io.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 746e104..b8f718a 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -498,6 +498,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     double *val;
     int *I;
   int *J;
+    char *str;
 
     if ((f = fopen(fname, "r")) == NULL)
             return -1;
@@ -507,6 +508,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
+        fclose(f);
         return -1;
     }
 
@@ -516,8 +518,10 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
             mm_is_sparse(matcode)))
     {
         fprintf(stderr, "Sorry, this application does not support ");
-        fprintf(stderr, "Market Market type: [%s]\n",
-                mm_typecode_to_str(matcode));
+        str = mm_typecode_to_str(matcode);
+        fprintf(stderr, "Market Market type: [%s]\n", str);
+        free(str);
+        fclose(f);
         return -1;
     }
 
@@ -525,9 +529,10 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
   find out size of sparse matrix: M, N, nz ....
 */
 
-    if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
+    if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0 || nz < 0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+        fclose(f);
         return -1;
     }
 
@@ -552,7 +557,17 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
 
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            fprintf(stderr, "read_unsymmetric_sparse(): could not parse entries.\n");
+            free(I);
+            free(J);
+            free(val);
+            *I_ = *J_ = NULL;
+            *val_ = NULL;
+            fclose(f);
+            return -1;
+        }
 /*
   Adjust from 1-based to 0-based.
 */
-- 
2.43.0


From 9305fc7765061c976fda0023f98cf50d758ad030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 59/71] fix: mm_typecode_to_str: no string for what is not a
 matrix

The first word was used uninitialised.
---
 dep/mm_io/mm_io.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index b8f718a..90b449e 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -620,15 +620,13 @@ char *mm_typecode_to_str ( MM_typecode matcode )
     char buffer[MM_MAX_LINE_LENGTH];
     char *types[4];
 	char *mm_strdup(const char *);
-    int error =0;
-
 /*
   check for MTX type
 */
     if (mm_is_matrix(matcode))
         types[0] = MM_MTX_STR;
     else
-        error=1;
+        return NULL;
 
 /*
   check for CRD or ARR matrix
-- 
2.43.0


From 64d225ad7edda39e221f5e5d70b61ddecab591dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 60/71] fix: mm_write_banner, mm_write_mtx_array_size,
 mm_write_mtx_crd_size: report success as success

They compared the number of characters written with the number of items.
---
 dep/mm_io/mm_io.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 90b449e..15afe32 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -698,9 +698,12 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
     char *str = mm_typecode_to_str(matcode);
     int ret_code;
 
+    if (str == NULL)
+        return MM_UNSUPPORTED_TYPE;
+
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0 )
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -720,7 +723,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -805,7 +808,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From be00bae6e703f4929846fd92661705acd65ca9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 61/71] fix: mm_write_mtx_crd: write values that read back the
 same, report failed writes

16 digits do not identify a double. Failed writes were reported as success, an unsupported kind left a partial file, and the type string leaked.
---
 dep/mm_io/mm_io.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 15afe32..fdd0785 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -745,7 +745,10 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 */
 {
     FILE *f;
-    int i;
+    int i, failed;
+
+    if (!(mm_is_pattern(matcode) || mm_is_real(matcode) || mm_is_complex(matcode)))
+        return MM_UNSUPPORTED_TYPE;
 
     if (strcmp(fname, "stdout") == 0)
         f = stdout;
@@ -753,15 +756,13 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
     if ((f = fopen(fname, "w")) == NULL)
         return MM_COULD_NOT_WRITE_FILE;
 /*
-  print banner followed by typecode.
+  print banner followed by typecode, matrix sizes and nonzeros.
 */
-    fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
-
-/*
-  print matrix sizes and nonzeros.
-*/
-    fprintf(f, "%d %d %d\n", M, N, nz);
+    if (mm_write_banner(f, matcode) != 0 || mm_write_mtx_crd_size(f, M, N, nz) != 0)
+    {
+        if (f != stdout) fclose(f);
+        return MM_COULD_NOT_WRITE_FILE;
+    }
 /*
   print values.
 */
@@ -771,23 +772,19 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
     else
     if (mm_is_real(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+            fprintf(f, "%d %d %20.17g\n", I[i], J[i], val[i]);
     else
     if (mm_is_complex(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2*i],
+            fprintf(f, "%d %d %20.17g %20.17g\n", I[i], J[i], val[2*i],
                         val[2*i+1]);
-    else
-    {
-        if (f != stdout) fclose(f);
-        return MM_UNSUPPORTED_TYPE;
-    }
 
+  failed = fflush ( f ) != 0 || ferror ( f );
   if ( f !=stdout )
   {
-    fclose(f);
+    failed |= fclose ( f ) != 0;
   }
-  return 0;
+  return failed ? MM_COULD_NOT_WRITE_FILE : 0;
 }
 /******************************************************************************/
 
-- 
2.43.0


From 36eeaeb764b83a23614fda904e13f704147902d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 62/71] fix: MatrixMarket sizes beyond int are refused, not
 wrapped around

mm_read_mtx_crd_size and mm_read_mtx_array_size took 4294967297 rows for one.
The size line is read into long integers, also for callers that need them.
---
 dep/mm_io/mm_io.c | 90 ++++++++++++++++++++++++++++++++++++++++-------
 dep/mm_io/mm_io.h |  1 +
 2 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index fdd0785..cb85643 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -2,6 +2,7 @@
 # include <string.h>
 # include <stdlib.h>
 # include <ctype.h>
+# include <limits.h>
 # include <time.h>
 
 # include "mm_io.h"
@@ -192,6 +193,7 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 {
   char line[MM_MAX_LINE_LENGTH];
   int num_items_read, end = 0;
+  long m, n;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -210,10 +212,10 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 /*
   line[] is either blank or has M,N
 */
-  if ( sscanf ( line, "%d %d%n", M, N, &end ) == 2 &&
+  if ( sscanf ( line, "%ld %ld%n", &m, &n, &end ) == 2 &&
        ( line[end] == '\0' || isspace ( (unsigned char) line[end] ) ) )
   {
-    return 0;
+    num_items_read = 2;
   }
   else if ( line[strspn ( line, " \t\r\n" )] != '\0' )
   {
@@ -221,12 +223,18 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
   }
   else
   {
-    num_items_read = fscanf ( f, "%d %d", M, N );
+    num_items_read = fscanf ( f, "%ld %ld", &m, &n );
     if ( num_items_read != 2 )
     {
       return MM_PREMATURE_EOF;
     }
   }
+  if ( m != ( int ) m || n != ( int ) n )
+  {
+    return MM_UNSUPPORTED_TYPE;
+  }
+  *M = ( int ) m;
+  *N = ( int ) n;
   return 0;
 }
 /******************************************************************************/
@@ -409,13 +417,14 @@ int mm_read_mtx_crd_entry(FILE *f, int *I, int *J,
 }
 /******************************************************************************/
 
-int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
+int mm_read_mtx_crd_size_long(FILE *f, long *M, long *N, long *nz )
 
 /******************************************************************************/
 /*
   Purpose:
 
-    MM_READ_MTX_CRD_SIZE reads the size line of an MM coordinate file.
+    MM_READ_MTX_CRD_SIZE_LONG reads the size line of an MM coordinate file
+    into long integers.
 
   Modified:
 
@@ -425,13 +434,13 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 
     Input, FILE *F, a pointer to the input file.
 
-    Output, int *M, the number of rows, as read from the file.
+    Output, long *M, the number of rows, as read from the file.
 
-    Output, int *N, the number of columns, as read from the file.
+    Output, long *N, the number of columns, as read from the file.
 
-    Output, int *NZ, the number of nonzero values, as read from the file.
+    Output, long *NZ, the number of nonzero values, as read from the file.
 
-    Output, MM_READ_MTX_CRF_SIZE, an error flag.
+    Output, MM_READ_MTX_CRD_SIZE_LONG, an error flag.
     0, no error.
 */
 {
@@ -456,10 +465,10 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 /*
   line[] is either blank or has M,N, nz
 */
-  if (sscanf(line, "%d %d %d%n", M, N, nz, &end) == 3 &&
+  if (sscanf(line, "%ld %ld %ld%n", M, N, nz, &end) == 3 &&
       (line[end] == '\0' || isspace((unsigned char) line[end])))
   {
-    return 0;
+    num_items_read = 3;
   }
   else if (line[strspn(line, " \t\r\n")] != '\0')
   {
@@ -467,12 +476,69 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
   }
   else
   {
-    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
+    num_items_read = fscanf(f, "%ld %ld %ld", M, N, nz);
     if (num_items_read != 3)
     {
       return MM_PREMATURE_EOF;
     }
   }
+/*
+  numbers that are too large for a long read as the largest one
+*/
+  if (*M == LONG_MAX || *N == LONG_MAX || *nz == LONG_MAX)
+  {
+    return MM_UNSUPPORTED_TYPE;
+  }
+  return 0;
+}
+/******************************************************************************/
+
+int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
+
+/******************************************************************************/
+/*
+  Purpose:
+
+    MM_READ_MTX_CRD_SIZE reads the size line of an MM coordinate file.
+
+  Modified:
+
+    03 November 2008
+
+  Parameters:
+
+    Input, FILE *F, a pointer to the input file.
+
+    Output, int *M, the number of rows, as read from the file.
+
+    Output, int *N, the number of columns, as read from the file.
+
+    Output, int *NZ, the number of nonzero values, as read from the file.
+
+    Output, MM_READ_MTX_CRF_SIZE, an error flag.
+    0, no error.
+*/
+{
+  long m, n, k;
+  int ret_code = mm_read_mtx_crd_size_long(f, &m, &n, &k);
+/*
+  set return null parameter values, in case we exit with errors
+*/
+  *M = 0;
+  *N = 0;
+  *nz = 0;
+
+  if (ret_code != 0)
+  {
+    return ret_code;
+  }
+  if (m != (int) m || n != (int) n || k != (int) k)
+  {
+    return MM_UNSUPPORTED_TYPE;
+  }
+  *M = (int) m;
+  *N = (int) n;
+  *nz = (int) k;
   return 0;
 }
 /******************************************************************************/
diff --git a/dep/mm_io/mm_io.h b/dep/mm_io/mm_io.h
index 99e7f2a..5b4aec8 100644
--- a/dep/mm_io/mm_io.h
+++ b/dep/mm_io/mm_io.h
@@ -29,6 +29,7 @@ int mm_read_mtx_crd_data ( FILE *f, int M, int N, int nz, int I[], int J[],
 int mm_read_mtx_crd_entry ( FILE *f, int *I, int *J, double *real, double *img,
   MM_typecode matcode );
 int mm_read_mtx_crd_size ( FILE *f, int *M, int *N, int *nz );
+int mm_read_mtx_crd_size_long ( FILE *f, long *M, long *N, long *nz );
 int mm_read_unsymmetric_sparse ( const char *fname, int *M_, int *N_, int *nz_,
   double **val_, int **I_, int **J_ );
 char *mm_strdup ( const char *s );
-- 
2.43.0


From c4b286998cba7d89499457fdcc40895c5aedf0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 63/71] fix: read_mm_COO: dimensions beyond int, negative
 indices beyond long

Dimensions the index type can hold were read modulo 2^32, and the index
-18446744073709551615 was taken for 1.
---
 include/io/input.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 4c01d84..fa555af 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -50,7 +50,8 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   MM_typecode matcode;
   FILE * f = fopen(filename, "r");
   int symflag = 0, skewflag = 0, ret;
-  unsigned long r, c, counter, position;
+  unsigned long counter, position;
+  long r, c;
   double val;
 
   if(f == NULL){
@@ -76,9 +77,9 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   if (mm_is_skew(matcode)) skewflag = 1;
   if (mm_is_symmetric(matcode) || skewflag) symflag = 1;
 
-  // Read size and allocate memory. Following function only works with ints
-  int nr, nc, nnz;
-  int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
+  // Read size and allocate memory
+  long nr, nc, nnz;
+  int ret_code = mm_read_mtx_crd_size_long(f, &nr, &nc, &nnz);
   if (ret_code != 0 || nr < 0 || nc < 0 || nnz < 0 || (symflag && nr != nc)) {
     fprintf(stderr, "Error while reading size information.\n");
     fclose(f);
@@ -114,20 +115,19 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   auto read_entry = [&]() -> bool {
       char s1 = ' ', s2 = ' ';
       val = 1.0;
-      ret = (fields == 2) ? fscanf(f, "%lu%c%lu", &r, &s1, &c) - 1
-                          : fscanf(f, "%lu%c%lu%c%lg", &r, &s1, &c, &s2, &val) - 2;
+      ret = (fields == 2) ? fscanf(f, "%ld%c%ld", &r, &s1, &c) - 1
+                          : fscanf(f, "%ld%c%ld%c%lg", &r, &s1, &c, &s2, &val) - 2;
       int next = fgetc(f);
       return ret == fields && isspace((unsigned char) s1) && isspace((unsigned char) s2)
                            && (next == EOF || isspace(next))
-                           && r >= 1 && r <= (unsigned long) nr
-                           && c >= 1 && c <= (unsigned long) nc;
+                           && r >= 1 && r <= nr && c >= 1 && c <= nc;
   };
 
   if(symflag){
     fflush(f);
     position = ftell(f);
     counter = 0;
-    for (int i=0; i<nnz; i++){
+    for (long i=0; i<nnz; i++){
         if(!read_entry()){
           fprintf(stderr, "Error while reading matrix entries.\n");
           fclose(f);
-- 
2.43.0


From 4223a6cb5a7aea4cccedcdaa7290a506195622a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 64/71] fix: write_mm_COO: dimensions beyond int

They were written as negative numbers, or modulo 2^32.
---
 include/io/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/io/output.h b/include/io/output.h
index bfbf44c..a8a9185 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -69,7 +69,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
 
   // Write file header
   mm_write_banner(f, matcode);
-  mm_write_mtx_crd_size(f, A->rows, A->columns, size);
+  fprintf(f, "%lu %lu %lu\n", (unsigned long) A->rows, (unsigned long) A->columns, size);
 
   // Write one point at the time.
   for (i=0; i<size; i++)
-- 
2.43.0


From 28f147d656b3c45efc3ea928c8e87429ac21a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 65/71] fix: print_timing: declared with a double, defined with
 a float

---
 src/common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.cpp b/src/common.cpp
index ebee359..4bc06b8 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -26,18 +26,18 @@ double tock()
 /*
  * Print execution time and FLOPs/second
  */
-static float mflops (unsigned long nnz, float t)
+static double mflops (unsigned long nnz, double t)
 {
     return 2.0 * nnz / (t * 1000000.0);
 }
 
-void print_timing (char const *mode, unsigned long nnz, float t)
+void print_timing (char const *mode, unsigned long nnz, double t)
 {
     printf("Execution time %s : %.6f\n", mode, t);
     printf("MFLOP/s        %s : %.0f\n", mode, mflops(nnz, t));
 }
 
-void print_timing (char const *method, char const *mode, unsigned long nnz, float t)
+void print_timing (char const *method, char const *mode, unsigned long nnz, double t)
 {
     printf("Execution time %s (%s): %.6f\n", method, mode, t);
     printf("MFLOP/s        %s (%s): %.0f\n", method, mode, mflops(nnz, t));
-- 
2.43.0


From 9b216ed72610edfe72d55ca3ba63cc1cc1335b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 66/71] fix: blocked CSR with signed indices: first block was
 number INT_MIN

---
 include/io/blocked.h    | 6 +++---
 include/matrix/csbr.2.h | 2 +-
 include/matrix/csbr.3.h | 2 +-
 include/matrix/csbr.h   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 9941212..443d0aa 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -89,7 +89,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = std::numeric_limits<IT>::max();  // max() + 1 = 0
+  block_index = (IT) -1;  // -1 + 1 = 0
   prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
@@ -190,7 +190,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = std::numeric_limits<IT>::max();  // max() + 1 = 0
+  block_index = (IT) -1;  // -1 + 1 = 0
   prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
@@ -391,7 +391,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   DEBUG(puts("Memory allocation done"));
 
   block_index = 0;
-  block_start = std::numeric_limits<IT>::max();  // max() + 1 = 0
+  block_start = (IT) -1;  // -1 + 1 = 0
 
   fread(&prev_b, sizeof(IT), 1, f);
   fread(&cur_row, sizeof(IT), 1, f);
diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index f134966..67f7606 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -115,7 +115,7 @@ void Coo_to_Csbr(Csbr2<T,IT> * A, Coo3<T,IT> * B,
   A->val = (T *) malloc( A->nnz * sizeof(T));
   A->col_ind = (IT *) malloc( A->nnz * sizeof(IT));
 
-  block_index = std::numeric_limits<IT>::max();
+  block_index = (IT) -1;  // -1 + 1 = 0
   prev_b = std::numeric_limits<IT>::max();
 
   for (IT i=0; i<A->nnz; i++)
diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index 36f0607..a71e2d6 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -87,7 +87,7 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
 
     A->block_ptr[A->nnzblocks] = A->nnz;
 
-    block_index = std::numeric_limits<IT>::max();
+    block_index = (IT) -1;  // -1 + 1 = 0
     prev_b = std::numeric_limits<IT>::max();
 
     for (IT i = 0; i < A->nnz; i++) {
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 5f6b3e8..ce2ef1e 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -234,7 +234,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = std::numeric_limits<IT>::max();
+  block_index = (IT) -1;  // -1 + 1 = 0
   prev_b = std::numeric_limits<IT>::max();
 
   for (IT i=0; i<A->nnz; i++)
-- 
2.43.0


From 0d64c369908baee5d7121d4961fc906f0fe6bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 67/71] fix: blocked CSR lost the beginning of the first block
 when it has the last block number

---
 include/io/blocked.h    | 6 +++---
 include/matrix/csbr.2.h | 2 +-
 include/matrix/csbr.3.h | 2 +-
 include/matrix/csbr.h   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 443d0aa..a24874b 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -104,7 +104,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     }
 
     // Check if this is the begining of a new block
-    if( b != prev_b){
+    if (i == 0 || b != prev_b) {
 
       // Make sure blocks are sorted correctly
       assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
@@ -205,7 +205,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     }
 
     // Check if this is the begining of a new block
-    if( b != prev_b){
+    if (i == 0 || b != prev_b) {
 
       // Make sure blocks are sorted correctly
       assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
@@ -318,7 +318,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     }
 
     // Check if this is the begining of a new block
-    if( b != prev_b){
+    if (i == 0 || b != prev_b) {
       assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
       prev_b = b;
       br = b / blockcols;
diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index 67f7606..9ec5e93 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -123,7 +123,7 @@ void Coo_to_Csbr(Csbr2<T,IT> * A, Coo3<T,IT> * B,
     b = B->elements[i].block;
 
     // Check if this is the begining of a new block
-    if (b != prev_b) {
+    if (i == 0 || b != prev_b) {
       br = b / blockcols;
       bc = b % blockcols;
       br_offset = blockrow_offset[br];
diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index a71e2d6..d509a5c 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -94,7 +94,7 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
         b = B->elements[i].block;
 
         // Check if this is the begining of a new block
-        if (b != prev_b) {
+        if (i == 0 || b != prev_b) {
             br = b / A->blockcols;
             bc = b % A->blockcols;
             br_offset = br * block_size;
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index ce2ef1e..5a7d323 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -242,7 +242,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
     b = B->elements[i].block;
 
     // Check if this is the begining of a new block
-    if (b != prev_b)
+    if (i == 0 || b != prev_b)
     {
       block_index++;
       prev_b = b;
-- 
2.43.0


From ec6b1516eedf213c48bdcde5eae1259a7d0faf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 68/71] fix: coordinate blocks accepted indices that a signed
 small index type cannot hold

---
 include/matrix/block_coo.1.h | 3 ++-
 include/matrix/block_coo.2.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index 98b28d9..8aefe1d 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -2,6 +2,7 @@
 #define _BLOCK_COO_1_H
 
 #include <cassert>
+#include <limits>
 
 /*
  * Minimalistic version of COO to serve as a block of a larger matrix.
@@ -48,7 +49,7 @@ int Coo_to_Coo(BlockCoo<T,IT,SIT> * A, NONZERO * array, IT nnz)
 
   if (sizeof(IT) > sizeof(SIT))
   {
-    IT max_index = IT(1) << (8 * sizeof(SIT));
+    IT max_index = IT(1) << std::numeric_limits<SIT>::digits;
     for (IT i=0; i<nnz; i++)
     {
         assert(array[i].row < max_index && array[i].col < max_index);
diff --git a/include/matrix/block_coo.2.h b/include/matrix/block_coo.2.h
index 4d96c29..57b761e 100644
--- a/include/matrix/block_coo.2.h
+++ b/include/matrix/block_coo.2.h
@@ -1,6 +1,7 @@
 #ifndef _BLOCK_COO_2_H
 #define _BLOCK_COO_2_H
 #include <cassert>
+#include <limits>
 
 #include "typedefs.h"
 #include "generic/coo.h"
@@ -36,7 +37,7 @@ int Coo_to_Coo(BlockCoo2<T,IT,SIT> * A, NONZERO * array, IT nnz)
   allocate(A, nnz);
 
   if (sizeof(IT) > sizeof(SIT)) {
-    IT max_index = IT(1) << (8 * sizeof(SIT));
+    IT max_index = IT(1) << std::numeric_limits<SIT>::digits;
     for (IT i=0; i<nnz; i++) {
         assert(array[i].row < max_index && array[i].col < max_index);
     }
-- 
2.43.0


From 592121c650b6ccc66a607a631e8160c9dd83f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:18 +0000
Subject: [PATCH 69/71] fix: refuse damaged blocked files before memory outside
 the arrays is touched

Block numbers that do not exist, more blocks or non-zeros than promised,
columns outside their block, unsorted rows and files cut short between two
non-zeros (Cgbr) were read as a matrix or corrupted memory. Close the file
when reading fails.
---
 include/io/blocked.h | 178 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 145 insertions(+), 33 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index a24874b..262b4e6 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -57,6 +57,29 @@ FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * bloc
   return f;
 }
 
+/*
+ * Do not trust the header before allocating memory: the file must be large
+ * enough for the non-zeros it promises.
+ */
+template <class T, class IT, class BLOCKEDTYPE>
+bool valid_blocked_sizes(BLOCKEDTYPE * A, const char * filename)
+{
+  size_t max_nnz = (get_file_size(filename) - 6*sizeof(IT)) / (3*sizeof(IT) + sizeof(T));
+
+  return A->nnz >= 0 && (size_t) A->nnz <= max_nnz && A->nnzblocks >= 0 && A->nnzblocks <= A->nnz;
+}
+
+/*
+ * Can block "b" be the next one, number "block_index", of a matrix? Blocks are
+ * in increasing order.
+ */
+template <class BLOCKEDTYPE, class IT>
+bool valid_next_block(BLOCKEDTYPE * A, IT block_index, IT b, IT prev_b)
+{
+  return b >= 0 && b / A->blockcols < A->blockrows && block_index < A->nnzblocks
+      && (block_index == 0 || b > prev_b);
+}
+
 /*
  * Read a blocked sparse matrix in CSBR format from a binary (.block) file.
  */
@@ -66,8 +89,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 {
   IT block_index;
   IT br, br_offset, br_size;
-  IT bc, bc_offset;
-  IT b, prev_b;
+  IT bc, bc_offset, bc_size;
+  IT b, prev_b, prev_row;
   IT cur_row, cur_col;
   T cur_val;
   size_t fr;
@@ -75,6 +98,12 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Csbr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
 
+  if (!valid_blocked_sizes<T, IT>(A, filename)) {
+    fprintf(stderr, "Invalid matrix header.\n");
+    fclose(f);
+    return -2;
+  }
+
   // Allocate memory
   A->blocks = (Csr<T,IT> *) malloc( A->nnzblocks * sizeof(Csr<T,IT>));
   A->blockcol_ind = (IT *) malloc( A->nnzblocks * sizeof(IT));
@@ -100,22 +129,30 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     fr += fread(&cur_val, sizeof(T), 1, f);
     if(fr != 4){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
 
     // Check if this is the begining of a new block
     if (i == 0 || b != prev_b) {
 
-      // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
-
       block_index++;
+
+      // Make sure that the block exists and blocks are sorted correctly
+      if (!valid_next_block(A, block_index, b, prev_b)) {
+        fprintf(stderr, "Invalid block.\n");
+        fclose(f);
+        return -5;
+      }
+
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
       br_size = blockrow_offset[br + 1] - br_offset;
+      bc_size = blockcol_offset[bc + 1] - bc_offset;
+      prev_row = br_offset;
 
       // Block meta data
       A->blockrow_ptr[br+1]++;
@@ -128,9 +165,14 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
-    assert(cur_row >= br_offset);
-    assert(cur_row  < br_size + br_offset);
-    assert(cur_col >= bc_offset);
+    // Non-zeros must belong to the block and be sorted by row
+    if (cur_row < prev_row || cur_row >= br_size + br_offset
+        || cur_col < bc_offset || cur_col >= bc_size + bc_offset) {
+      fprintf(stderr, "Invalid non-zero.\n");
+      fclose(f);
+      return -6;
+    }
+    prev_row = cur_row;
 
     A->blocks[block_index].row_ptr[cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col - bc_offset;
@@ -139,6 +181,12 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   fclose(f);
 
+  // There must be as many blocks as the header says
+  if ((IT) (block_index + 1) != A->nnzblocks) {
+    fprintf(stderr, "Invalid number of blocks.\n");
+    return -5;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Get row pointers from row non-zero counters
@@ -168,8 +216,8 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 {
   IT block_index;
   IT br, br_offset, br_size;
-  IT bc, bc_offset;
-  IT b, prev_b;
+  IT bc, bc_offset, bc_size;
+  IT b, prev_b, prev_row;
   IT cur_row, cur_col;
   T cur_val;
   size_t fr;
@@ -177,6 +225,12 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Csbr2<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
 
+  if (!valid_blocked_sizes<T, IT>(A, filename)) {
+    fprintf(stderr, "Invalid matrix header.\n");
+    fclose(f);
+    return -2;
+  }
+
   // Allocate memory
   A->blockrow_ptr = (IT *) calloc( A->blockrows + 1 , sizeof(IT));
   A->row_ptr = (IT **) malloc( A->nnzblocks * sizeof(IT *));
@@ -201,22 +255,30 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     fr += fread(&cur_val, sizeof(T), 1, f);
     if(fr != 4){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
 
     // Check if this is the begining of a new block
     if (i == 0 || b != prev_b) {
 
-      // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
-
       block_index++;
+
+      // Make sure that the block exists and blocks are sorted correctly
+      if (!valid_next_block(A, block_index, b, prev_b)) {
+        fprintf(stderr, "Invalid block.\n");
+        fclose(f);
+        return -5;
+      }
+
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
       br_size = blockrow_offset[br + 1] - br_offset;
+      bc_size = blockcol_offset[bc + 1] - bc_offset;
+      prev_row = br_offset;
 
       // Block meta data
       A->blockrow_ptr[br+1]++;
@@ -225,13 +287,19 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       A->row_ptr[block_index] = (IT *) calloc(br_size + 1, sizeof(IT));
       if(A->row_ptr[block_index] == NULL){
         fprintf(stderr, "Could not allocate memory for block.\n");
+        fclose(f);
         return -5;
       }
     }
 
-    assert(cur_row >= br_offset);
-    assert(cur_row  < br_size + br_offset);
-    assert(cur_col >= bc_offset);
+    // Non-zeros must belong to the block and be sorted by row
+    if (cur_row < prev_row || cur_row >= br_size + br_offset
+        || cur_col < bc_offset || cur_col >= bc_size + bc_offset) {
+      fprintf(stderr, "Invalid non-zero.\n");
+      fclose(f);
+      return -6;
+    }
+    prev_row = cur_row;
 
     A->row_ptr[block_index][cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col;
@@ -240,6 +308,12 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   fclose(f);
 
+  // There must be as many blocks as the header says
+  if ((IT) (block_index + 1) != A->nnzblocks) {
+    fprintf(stderr, "Invalid number of blocks.\n");
+    return -5;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Accumulate block-row counters to get block-row pointers
@@ -370,7 +444,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   IT block_index, block_nnz, block_start;
   IT br, br_offset, br_size;
   IT bc, bc_offset, bc_size;
-  IT b, prev_b;
+  IT b, prev_b, last_b = 0;
   IT cur_row, cur_col;
   T cur_val;
   size_t fr;
@@ -378,6 +452,12 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
 
+  if (!valid_blocked_sizes<T, IT>(A, filename)) {
+    fprintf(stderr, "Invalid matrix header.\n");
+    fclose(f);
+    return -2;
+  }
+
   // Allocate memory
   A->blocks = new MatrixBlock<T, IT, SIT>[A->nnzblocks];
   A->blockcol_ind = new IT[A->nnzblocks];
@@ -393,20 +473,40 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   block_index = 0;
   block_start = (IT) -1;  // -1 + 1 = 0
 
-  fread(&prev_b, sizeof(IT), 1, f);
-  fread(&cur_row, sizeof(IT), 1, f);
-  fread(&cur_col, sizeof(IT), 1, f);
-  fread(&cur_val, sizeof(T), 1, f);
-
-  // Read data section
-  for(IT i=0; i<A->nnz; i++){
-    fr =  fread(&b, sizeof(IT), 1, f);
+  fr = 4;
+  if (A->nnz > 0) {
+    fr  = fread(&prev_b, sizeof(IT), 1, f);
     fr += fread(&cur_row, sizeof(IT), 1, f);
     fr += fread(&cur_col, sizeof(IT), 1, f);
     fr += fread(&cur_val, sizeof(T), 1, f);
+  }
+
+  // Read data section
+  for(IT i=0; i<A->nnz; i++){
+    bool last = (i == A->nnz - 1);
+
+    if (!last && fr == 4) {
+      fr  = fread(&b, sizeof(IT), 1, f);
+      fr += fread(&cur_row, sizeof(IT), 1, f);
+      fr += fread(&cur_col, sizeof(IT), 1, f);
+      fr += fread(&cur_val, sizeof(T), 1, f);
+    }
+    if (fr != 4) {
+      fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
+      return -4;
+    }
+
+    // Check if this is the end of a block
+    if (last || b != prev_b) {
+
+      // Make sure that the block exists and blocks are sorted correctly
+      if (!valid_next_block(A, block_index, prev_b, last_b)) {
+        fprintf(stderr, "Invalid block.\n");
+        fclose(f);
+        return -5;
+      }
 
-    // Check if this is the begining of a new block
-    if( b != prev_b || fr == 0){
       br = prev_b / blockcols;
       bc = prev_b % blockcols;
       br_offset = blockrow_offset[br];
@@ -421,7 +521,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
       // Read new block in memory
       block_nnz = i - block_start;
       temp_array = new Element<T,IT>[block_nnz];
-      if(fr == 4)
+      if(!last)
         fseek(f, - ((long) ((block_nnz + 1) * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
       else
         fseek(f, - ((long) (block_nnz * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
@@ -432,11 +532,16 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
         fread(&(temp_array[j].col), sizeof(IT), 1, f);
         fread(&(temp_array[j].val), sizeof(T), 1, f);
 
-        assert(temp_array[j].block == prev_b);
-        assert(temp_array[j].row   >= br_offset);
-        assert(temp_array[j].row   <  br_offset + br_size);
-        assert(temp_array[j].col   >= bc_offset);
-        assert(temp_array[j].col   <  bc_offset + bc_size);
+        // Non-zeros must belong to the block and be sorted by row
+        if (temp_array[j].block != prev_b
+            || temp_array[j].row < (j > 0 ? temp_array[j-1].row + br_offset : br_offset)
+            || temp_array[j].row >= br_offset + br_size
+            || temp_array[j].col < bc_offset || temp_array[j].col >= bc_offset + bc_size) {
+          fprintf(stderr, "Invalid non-zero.\n");
+          delete [] temp_array;
+          fclose(f);
+          return -6;
+        }
 
         temp_array[j].row -= br_offset;
         temp_array[j].col -= bc_offset;
@@ -452,12 +557,19 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
       fseek(f, (long)  (3*sizeof(IT) + sizeof(T)), SEEK_CUR);
       block_index++;
       block_start = i;
+      last_b = prev_b;
       prev_b = b;
     }
   }
 
   fclose(f);
 
+  // There must be as many blocks as the header says
+  if (block_index != A->nnzblocks) {
+    fprintf(stderr, "Invalid number of blocks.\n");
+    return -5;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   for (br=0; br<A->blockrows; br++)
-- 
2.43.0


From c5b5180091bfdab47192663e868bdde253d7459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:33 +0000
Subject: [PATCH 70/71] fix: stop when the input of one2zero or double2float
 cannot be read

---
 src/tools/double2float.c | 5 +++++
 src/tools/one2zero.c     | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 594b803..a3ea39b 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -43,6 +43,11 @@ int main(int argc, char * argv[])
       fwrite(&v_new, sizeof(NEWTYPE), 1, f_out);
     }
 
+    if(ferror(f_in)){
+      fprintf(stderr, "Error while reading input file. Aborting.\n");
+      exit(1);
+    }
+
     fclose(f_in);
     int error = ferror(f_out);
     if(fclose(f_out) != 0 || error){
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 0364f9e..6ae3622 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -38,7 +38,10 @@ int main (int argc, char * argv[])
     indeces = (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
 
     fseek(f_in, 0, SEEK_SET);
-    fread(indeces, sizeof(INDEXTYPE), n, f_in);
+    if (indeces == NULL || fread(indeces, sizeof(INDEXTYPE), n, f_in) != n) {
+        fprintf(stderr, "Could not read file\n");
+        return 1;
+    }
     fclose(f_in);
 
     // Convert and check
-- 
2.43.0


From afdb6a7bc076896c96636c723e34f96d074f7cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:33 +0000
Subject: [PATCH 71/71] fix: pprint no longer shows values that are not in the
 file

---
 src/tools/pprint.c | 48 ++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index cdcadf4..900b23d 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -6,6 +6,17 @@
 #define INDEXTYPE uint32_t
 #define VALUETYPE float
 
+/*
+ * Read a single value, stop if there is none
+ */
+static void read_one(void * value, size_t size, FILE * f)
+{
+    if (fread(value, size, 1, f) != 1) {
+        fprintf(stderr, "Unexpected end of file.\n");
+        exit(1);
+    }
+}
+
 /*
  * Tool to read binary files in some of the formats used in this project
  * WARNING : Always pipe results somewhere (eg. to 'less')
@@ -43,46 +54,46 @@ int main (int argc, char * argv[])
 
     switch(mode) {
         case 0:  // Binary triples file
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
+        read_one(&r, sizeof(INDEXTYPE), f);
+        read_one(&c, sizeof(INDEXTYPE), f);
+        read_one(&nnz, sizeof(INDEXTYPE), f);
         printf("%lu rows x %lu columns, %lu non-zeros\n",
                 (unsigned long) r, (unsigned long) c, (unsigned long) nnz);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_one(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_one(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_one(&v, sizeof(VALUETYPE), f);
             printf("%12f\n", (double) v);
         }
         break;
 
         case 1: // Binary file with block info (.csbr)
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
+        read_one(&r, sizeof(INDEXTYPE), f);
+        read_one(&c, sizeof(INDEXTYPE), f);
+        read_one(&nnz, sizeof(INDEXTYPE), f);
+        read_one(&n, sizeof(INDEXTYPE), f);
+        read_one(&n, sizeof(INDEXTYPE), f);
+        read_one(&n, sizeof(INDEXTYPE), f);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_one(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_one(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_one(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_one(&v, sizeof(VALUETYPE), f);
             printf("%12e\n", v);
         }
         break;
@@ -92,6 +103,11 @@ int main (int argc, char * argv[])
         break;
     }
 
+    if (ferror(f)) {
+        fprintf(stderr, "Could not read file.\n");
+        return 1;
+    }
+
     fclose(f);
     return 0;
 }
-- 
2.43.0

