From 2949b87a85458b66ac433965c9778a64cf37dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 01/91] fix: BCRSMatrix::nonzeroes() must not change how the
 matrix is stored

For matrices with row-wise allocated entries it cached the number of
nonzeroes in nnz_, which other methods take as the sign of one long
array of entries: scaling such a matrix after calling nonzeroes() or
copying it dereferenced a null pointer.
---
 dune/istl/bcrsmatrix.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3806a81..efad154 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2012,9 +2012,10 @@ namespace Dune {
     //! number of blocks that are stored (the number of blocks that possibly are nonzero)
     size_type nonzeroes () const
     {
-      // in case of row-wise allocation
+      // in case of row-wise allocation; the sum must not be stored in nnz_, because
+      // a positive nnz_ signals that the entries are stored in one long array
       if( nnz_ <= 0 )
-        nnz_ = std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
+        return std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
       return nnz_;
     }
 
-- 
2.43.0


From 7b90bf3f2f959789006d6d77c6cc90d5ceb417bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 02/91] fix: BCRSMatrix random mode with over-sized rows: store
 rows consecutively

After endindices() with rows larger than needed the column indices kept
gaps.  Copies share the column indices but lay out their rows without
gaps, so copying such a matrix overwrote the column indices of the
source.  Also report the real number of nonzeroes if more were requested
in the constructor than the row sizes add up to.
---
 dune/istl/bcrsmatrix.hh | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index efad154..802abed 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1286,13 +1286,24 @@ namespace Dune {
           if (j.index() >= m) {
             dwarn << "WARNING: size of row "<< i.index()<<" is "<<j.offset()<<". But was specified as being "<< (*i).end().offset()
                   <<". This means you are wasting valuable space and creating additional cache misses!"<<std::endl;
-            nnz_ -= ((*i).end().offset() - j.offset());
             r[i.index()].setsize(j.offset());
             break;
           }
         }
       }
 
+      // close the gaps left by unused entries, such that the rows are stored
+      // consecutively (copies share the column indices and rely on that)
+      size_type* jptr = j_.get();
+      for (size_type i=0; i<n; ++i) {
+        if (r[i].getsize() > 0) {
+          std::copy(r[i].getindexptr(), r[i].getindexptr()+r[i].getsize(), jptr);
+          r[i].setindexptr(jptr);
+          jptr += r[i].getsize();
+        }
+      }
+      nnz_ = jptr - j_.get();
+
       allocateData();
       setDataPointers();
 
-- 
2.43.0


From 22a55ecc25d8903e986706446736ff76a32f9afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 03/91] fix: BCRSMatrix::deallocate() with row sizes set but no
 rows allocated

Destroying or resizing a matrix in random mode between setrowsize() and
endrowsizes() called destructors of blocks at a null pointer.
---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 802abed..6d04f3b 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2199,7 +2199,7 @@ namespace Dune {
       {
         // check if memory for rows have been allocated individually
         for (size_type i=0; i<n; i++)
-          if (r[i].getsize()>0)
+          if (r[i].getsize()>0 && r[i].getptr())
           {
             for (B *col=r[i].getptr()+(r[i].getsize()-1),
                  *colend = r[i].getptr()-1; col!=colend; --col) {
-- 
2.43.0


From 062cc98e686bf8ceaf09a4a1917189a2e8b17140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 04/91] fix: allow row-wise creation of a BCRSMatrix without
 rows

createbegin() marks such a matrix as built, whereupon createend() threw.
---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 6d04f3b..b9d05a7 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -961,7 +961,7 @@ namespace Dune {
           {
             Mat.build_mode = row_wise;
           }
-        if (i==0 && Mat.ready != building)
+        if (i==0 && Mat.ready != building && !(Mat.ready == built && Mat.N()==0))
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-- 
2.43.0


From 17042abdb475399646c77b60b918108f7757edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 05/91] fix: BCRSMatrix::setSize() must drop the overflow of an
 unfinished implicit build

Otherwise entries of the old build reappear in the new matrix.
---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index b9d05a7..e9483e3 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2221,6 +2221,9 @@ namespace Dune {
         r = nullptr;
       }
 
+      // forget entries of an unfinished implicit build
+      overflow.clear();
+
       // Mark matrix as not built at all.
       ready=notAllocated;
 
-- 
2.43.0


From 7e3f890f471df9033ad4c25c4c1bc22403506abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 06/91] fix: a BCRSMatrix without rows has no nonzeroes

The requested or reserved number of nonzeroes was kept after row-wise or
implicit creation, and scaling the matrix accessed entries that do not exist.
---
 dune/istl/bcrsmatrix.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index e9483e3..0517480 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -965,9 +965,11 @@ namespace Dune {
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-        if(i==0 && _Mat.N()==0)
+        if(i==0 && _Mat.N()==0) {
           // empty Matrix is always built.
            Mat.ready = built;
+           Mat.nnz_ = 0;
+        }
       }
 
       //! prefix increment
@@ -1501,6 +1503,7 @@ namespace Dune {
       //determine average number of entries and memory usage
       if ( n == 0)
       {
+        nnz_ = 0;
         stats.avg = 0;
         stats.mem_ratio = 1;
       }
-- 
2.43.0


From 0fe07f86b1d7d1262a6415ac94fcda09868a51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 07/91] fix: deallocate BCRSMatrix rows with the size they were
 allocated with

---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 0517480..b49cb79 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2208,8 +2208,8 @@ namespace Dune {
                  *colend = r[i].getptr()-1; col!=colend; --col) {
               std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
             }
-            sizeAllocator_.deallocate(r[i].getindexptr(),1);
-            allocator_.deallocate(r[i].getptr(),1);
+            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
+            allocator_.deallocate(r[i].getptr(),r[i].getsize());
             // clear out row data in case we don't want to deallocate the rows
             // otherwise we might run into a double free problem here later
             r[i].set(0,nullptr,nullptr);
-- 
2.43.0


From 2aeeb11cfe6af70d3120fd4c27c40029af57bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 08/91] fix: Matrix::infinity_norm for fields without NaN

---
 dune/istl/matrix.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 2aff176..7574828 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -995,7 +995,6 @@ namespace MatrixImp
         for (auto const &y : x)
           sum += Impl::asMatrix(y).infinity_norm();
         norm = max(sum, norm);
-        isNaN += sum;
       }
 
       return norm;
-- 
2.43.0


From 0cc9c4dbc61028a25a62e3b7018eb2c4029f4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 09/91] fix: Frobenius norm of complex ScaledIdentityMatrix

---
 dune/istl/scaledidmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/scaledidmatrix.hh b/dune/istl/scaledidmatrix.hh
index 4efdba4..c73243f 100644
--- a/dune/istl/scaledidmatrix.hh
+++ b/dune/istl/scaledidmatrix.hh
@@ -361,13 +361,13 @@ namespace Dune {
     //! frobenius norm: sqrt(sum over squared values of entries)
     typename FieldTraits<field_type>::real_type frobenius_norm () const
     {
-      return fvmeta::sqrt(n*p_*p_);
+      return fvmeta::sqrt(frobenius_norm2());
     }
 
     //! square of frobenius norm, need for block recursion
     typename FieldTraits<field_type>::real_type frobenius_norm2 () const
     {
-      return n*p_*p_;
+      return n*fvmeta::abs2(p_);
     }
 
     //! infinity norm (row sum norm, how to generalize for blocks?)
-- 
2.43.0


From f87191b15e759886825df56e69cfcb67705d4b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 10/91] fix: sparse matrix products with an empty set of result
 rows

---
 dune/istl/matrixmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixmatrix.hh b/dune/istl/matrixmatrix.hh
index 19ac9e1..7fb95f6 100644
--- a/dune/istl/matrixmatrix.hh
+++ b/dune/istl/matrixmatrix.hh
@@ -330,7 +330,8 @@ namespace Dune
         : mat(mat_), row(mat.begin())
       {
         mat=0;
-        col=row->begin();
+        if(row!=mat.end())
+          col=row->begin();
       }
       void nextRow()
       {
-- 
2.43.0


From 9f95e120d770bfdf4e9bf1acbc9213292372246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 11/91] fix: creating an empty VariableBlockVector with its
 create iterator

---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 33684ec..ee9bdd3 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -530,7 +530,8 @@ namespace Dune {
       syncBaseArray();
 
       // and we set the window pointers
-      block[0].setptr(this->p); // pointer to first block
+      if (block.size()>0)
+        block[0].setptr(this->p); // pointer to first block
       for (size_type j=1; j<block.size(); ++j) // and the rest
         block[j].setptr(block[j-1].getptr()+block[j-1].getsize());
 
-- 
2.43.0


From 85624c9eba8969c679dea6fa4817d7445a435a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 12/91] fix: restart GMRes also if only one iteration is left

When a cycle ended with one remaining permitted iteration the restart was
skipped but the iteration was done, starting from the old (rescaled) first
basis vector: the reported defect did not belong to the returned iterate.
---
 dune/istl/solvers.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cb09353..0651bce 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1013,8 +1013,8 @@ namespace Dune {
 
         // restart GMRes if convergence was not achieved,
         // i.e. linear defect has not reached desired reduction
-        // and if j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit ) {
+        // and if another iteration follows
+        if( res.converged != true && j <= _maxit ) {
 
           if(_verbose > 0)
             std::cout << "=== GMRes::restart" << std::endl;
@@ -1258,8 +1258,8 @@ namespace Dune {
 
         // restart fGMRes if convergence was not achieved,
         // i.e. linear residual has not reached desired reduction
-        // and if still j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit)
+        // and if another iteration follows
+        if( res.converged != true && j <= _maxit)
         {
           if (_verbose > 0)
             std::cout << "=== fGMRes::restart" << std::endl;
-- 
2.43.0


From 5413a15ab42fa147f438f9d995d049ca5ba39d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 13/91] fix: GMRes solvers honour the reduction given to
 apply()

The four argument apply() of RestartedGMResSolver and RestartedFlexibleGMResSolver
ignored its reduction argument.
---
 dune/istl/solvers.hh | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 0651bce..2dc8c14 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -899,6 +899,9 @@ namespace Dune {
       _restart(restart)
     {}
 
+    // don't shadow four-argument version of apply defined in the base class
+    using IterativeSolver<X,Y>::apply;
+
     /*!
        \brief Apply inverse operator.
 
@@ -908,19 +911,6 @@ namespace Dune {
              breakdown.
      */
     void apply (X& x, Y& b, InverseOperatorResult& res) override
-    {
-      apply(x,b,Simd::max(_reduction),res);
-    }
-
-    /*!
-       \brief Apply inverse operator.
-
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
-
-       \note Currently, the RestartedGMResSolver aborts when it detects a
-             breakdown.
-     */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
@@ -1161,12 +1151,12 @@ namespace Dune {
     /*!
        \brief Apply inverse operator.
 
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
+       \copydoc InverseOperator::apply(X&,Y&,InverseOperatorResult&)
 
        \note Currently, the RestartedFlexibleGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
-- 
2.43.0


From ad34f27e6c3b517e9c7a592874b555139bd06aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 14/91] fix: restore the reduction of an iterative solver if
 apply() throws

---
 dune/istl/solver.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 48696d0..f48aaab 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -377,7 +377,13 @@ namespace Dune
     {
       scalar_real_type saved_reduction = _reduction;
       _reduction = reduction;
-      this->apply(x,b,res);
+      try {
+        this->apply(x,b,res);
+      }
+      catch (...) {
+        _reduction = saved_reduction;
+        throw;
+      }
       _reduction = saved_reduction;
     }
 
-- 
2.43.0


From 29e14dcd9534c0cb01698c0a037990d5afb93deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 15/91] fix: an aborted solver must not report convergence

Without a successful step (NaN or infinite initial defect) finalize() took the
initial zero of _def for a converged defect.
---
 dune/istl/solver.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index f48aaab..9135e8b 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -486,7 +486,6 @@ namespace Dune
 
     protected:
       void finalize(){
-        _res.converged = (Simd::allTrue(_def<_def0*_parent._reduction || _def<real_type(1E-30)));
         _res.iterations = _i;
         _res.reduction = static_cast<double>(Simd::max(_def/_def0));
         _res.conv_rate  = pow(_res.reduction,1.0/_i);
-- 
2.43.0


From ee5ba0fa90db2c52798b69cb7cf8028bd97ababe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 16/91] fix: flexible CG solvers stop at the first converged
 iteration

GeneralizedPCGSolver and RestartedFCGSolver/CompleteFCGSolver continued until the
end of the current cycle, dividing by zero if the solution was exact.
---
 dune/istl/solvers.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 2dc8c14..8b14b0e 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1448,7 +1448,8 @@ private:
           def = _sp->norm(b);        // comp defect norm
 
           ++i;
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
         }
         if(res.converged)
           break;
@@ -1616,7 +1617,8 @@ private:
           // convergence test
           def = _sp->norm(b); // comp defect norm
 
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
           i++;
         }
         //restart: exchange first and last stored values
-- 
2.43.0


From 2cd4a6fb5b5a924c441646da15ee95a456cc3cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 17/91] fix: GeneralizedPCGSolver must not iterate if no
 iteration is permitted

---
 dune/istl/solvers.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 8b14b0e..7209dca 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1400,6 +1400,10 @@ private:
       field_type rho, lambda;
 
       int i=0;
+      if(_maxit<1) {
+        _prec->post(x);
+        return;
+      }
       // determine initial search direction
       *(p[0]) = 0;                              // clear correction
       _prec->apply(*(p[0]),b);                   // apply preconditioner
-- 
2.43.0


From 2f7bb4b3f08bb51088c793c078e6eeee838be83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 18/91] fix: condition estimate of a CG solver that did not
 converge or did one iteration

Reaching maxit read past the end of the recurrence coefficients, and ARPACK
terminates the program for a one by one matrix.
---
 dune/istl/solvers.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 7209dca..7ff9d2c 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -343,6 +343,16 @@ namespace Dune {
         if constexpr (enableConditionEstimate) {
           using std::sqrt;
 
+          // i is one too large if the solver did not converge
+          i = lambdas.size();
+
+          // ARPACK needs at least two rows
+          if (i < 2) {
+            if (i == 1)
+              res.condition_estimate = 1.0;
+            return;
+          }
+
           // Build T matrix which has extreme eigenvalues approximating
           // those of the original system
           // (see Y. Saad, Iterative methods for sparse linear systems)
-- 
2.43.0


From 7da2ecb803777e8426c03b0467ccd4325f9246e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 19/91] fix: endless loop of flexible CG solvers that store a
 single direction

GeneralizedPCGSolver with restart=1 and RestartedFCGSolver with mmax=0 never
advanced after the first cycle.
---
 dune/istl/solvers.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 7ff9d2c..b3d5d62 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1435,7 +1435,7 @@ private:
       while(i<_maxit) {
         // the loop
         int end=std::min(_restart, _maxit-i+1);
-        for (int ii = 1; ii < end; ++ii)
+        for (int ii = std::min(1, _restart-1); ii < end; ++ii)
         {
           //std::cout<<" ii="<<ii<<" i="<<i<<std::endl;
           // compute next conjugate direction
@@ -1657,7 +1657,7 @@ private:
     // This function is called every mmax iterations to handle limited array sizes.
     virtual void cycle(std::vector<X>& Ad,std::vector<X>& d,std::vector<field_type,ReboundAllocatorType<X,field_type> >& ddotAd,int& i_bounded) {
       // Reset loop index and exchange the first and last arrays
-      i_bounded = 1;
+      i_bounded = std::min(1, _mmax);
       std::swap(Ad[0], Ad[_mmax]);
       std::swap(d[0], d[_mmax]);
       std::swap(ddotAd[0], ddotAd[_mmax]);
-- 
2.43.0


From d37c92d39c0b9c8ca9c6f1a1d93fa20a055951dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 20/91] fix: GeneralizedPCGSolver: orthogonalization of search
 directions for complex fields

The coefficient was complex conjugated, new directions were not A-orthogonal to
the previous ones if the preconditioner changes.
---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index b3d5d62..b29a93b 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1446,7 +1446,7 @@ private:
           _op->apply(prec_res, q);
 
           for(int j=0; j<ii; ++j) {
-            rho =_sp->dot(q,*(p[j]))/pp[j];
+            rho =_sp->dot(*(p[j]),q)/pp[j];
             p[ii]->axpy(-rho, *(p[j]));
           }
 
-- 
2.43.0


From da3c53f1efe6546415b09a4e17515204c79da41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 21/91] fix: MINRESSolver: measure initial and later defects in
 the same norm

The initial defect was the 2-norm of the preconditioned residual, the later ones
its preconditioner norm: with a badly scaled preconditioner convergence was
reported although the residual was not reduced by the requested factor (or not
reported although it was).
---
 dune/istl/solvers.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index b29a93b..11d7b9a 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -651,14 +651,18 @@ namespace Dune {
 
       // calculate preconditioned defect
       _prec->apply(z,b); // r = W^-1 (b - Ax)
-      real_type def = _sp->norm(z);
+      // beta is real and positive in exact arithmetic
+      // since it is the norm of the basis vectors (in unpreconditioned case)
+      field_type beta = sqrt(_sp->dot(b,z));
+      // the defect is measured in the norm the recurrence minimizes
+      real_type def = abs(beta);
       if (iteration.step(0, def)){
         _prec->post(x);
         return;
       }
 
       // recurrence coefficients as computed in Lanczos algorithm
-      field_type alpha, beta;
+      field_type alpha;
         // diagonal entries of givens rotation
       std::array<real_type,2> c{{0.0,0.0}};
         // off-diagonal entries of givens rotation
@@ -670,9 +674,6 @@ namespace Dune {
       // the rhs vector of the min problem
       std::array<field_type,2> xi{{1.0,0.0}};
 
-      // beta is real and positive in exact arithmetic
-      // since it is the norm of the basis vectors (in unpreconditioned case)
-      beta = sqrt(_sp->dot(b,z));
       field_type beta0 = beta;
 
       // the search directions
-- 
2.43.0


From aad08e10083bbd9a9bf71b249742ae04e1315fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 22/91] fix: block recursive SOR and Jacobi sweeps pass the
 current block of x and the block update to nested sweeps

---
 dune/istl/gsetc.hh                | 13 +++++--------
 dune/istl/multitypeblockmatrix.hh |  8 ++++----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/dune/istl/gsetc.hh b/dune/istl/gsetc.hh
index 0cfddb0..cbee1ab 100644
--- a/dune/istl/gsetc.hh
+++ b/dune/istl/gsetc.hh
@@ -424,10 +424,6 @@ namespace Dune {
       bblock rhs;
       xblock v;
 
-      // Initialize nested data structure if there are entries
-      if(A.begin()!=A.end())
-        v=x[0];
-
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
       {
@@ -451,6 +447,8 @@ namespace Dune {
           coliterator diag=j;           // *diag = a_ii
           for (; j!=endj; ++j)
             (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
+          v = x[i.index()];           // same structure as x_i,
+          v = 0;           // a nested sweep starts from zero
           algmeta_itsteps<I-1,typename M::block_type>::bsorf(*diag,v,rhs,w);           // if blocksize I==1: v = rhs/a_ii
           x[i.index()].axpy(w,v);           // x_i = w / a_ii * (b_i - sum_{j<i} a_ij * xnew_j - sum_{j>=i} a_ij * xold_j)
         }
@@ -467,10 +465,6 @@ namespace Dune {
       bblock rhs;
       xblock v;
 
-      // Initialize nested data structure if there are entries
-      if(A.begin()!=A.end())
-        v=x[0];
-
       rowiterator endi=A.beforeBegin();
       for (rowiterator i=A.beforeEnd(); i!=endi; --i)
       {
@@ -494,6 +488,8 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          v = x[i.index()];           // same structure as x_i,
+          v = 0;           // a nested sweep starts from zero
           algmeta_itsteps<I-1,typename M::block_type>::bsorb(*diag,v,rhs,w);
           x[i.index()].axpy(w,v);
         }
@@ -509,6 +505,7 @@ namespace Dune {
       bblock rhs;
 
       X v(x);     // allocate with same size
+      v = 0;      // nested sweeps start from zero
 
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index e2389d9..0734f29 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -527,8 +527,8 @@ namespace Dune {
      */
     template <typename TVector, typename TMatrix, typename K>
     static void bsorf(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
-      TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      TVector v(x);
+      v=0;                                                            //nested sweeps start from zero
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorf(A,x,v,b,w);
 
     }
@@ -554,8 +554,8 @@ namespace Dune {
      */
     template <typename TVector, typename TMatrix, typename K>
     static void bsorb(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
-      TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      TVector v(x);
+      v=0;                                                            //nested sweeps start from zero
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorb(A,x,v,b,w);
 
     }
-- 
2.43.0


From 056ae0fab2b59b521bd7aeaf82fe7c8b3b4e7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 23/91] fix: MultiTypeBlockMatrix dbgs subtracts only the
 off-diagonal blocks

---
 dune/istl/multitypeblockmatrix.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index 0734f29..94d0698 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -508,7 +508,9 @@ namespace Dune {
     static void dbgs(const TMatrix& A, TVector& x, TVector& v, const TVector& b, const K& w) {
       auto rhs = std::get<crow> (b);
 
-      MultiTypeBlockMatrix_Solver_Col<I,crow,0, TMatrix::M()>::calc_rhs(A,x,v,rhs,w);  // calculate right side of equation
+      // calculate right side of equation: all blocks of the row except for the diagonal one
+      MultiTypeBlockMatrix_Solver_Col<I,crow,0,crow>::calc_rhs(A,x,v,rhs,w);
+      MultiTypeBlockMatrix_Solver_Col<I,crow,crow+1,TMatrix::M()-crow-1>::calc_rhs(A,x,v,rhs,w);
       //solve on blocklevel I-1
       using M =
         typename std::remove_cv<
-- 
2.43.0


From 81a112a9c63ac463a4278a441c11cb400939858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 24/91] fix: incomplete factorizations report a missing
 diagonal entry instead of reading past the row

---
 dune/istl/ildl.hh | 5 +++--
 dune/istl/ilu.hh  | 9 ++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/dune/istl/ildl.hh b/dune/istl/ildl.hh
index a647795..f6bd63f 100644
--- a/dune/istl/ildl.hh
+++ b/dune/istl/ildl.hh
@@ -93,8 +93,9 @@ namespace Dune
     {
       auto &&A_i = *i;
 
+      const auto ijend = A_i.end();
       auto ij = A_i.begin();
-      for( ; ij.index() < i.index(); ++ij )
+      for( ; (ij != ijend) && (ij.index() < i.index()); ++ij )
       {
         auto &&A_ij = *ij;
         auto &&A_j = A[ ij.index() ];
@@ -117,7 +118,7 @@ namespace Dune
         }
       }
 
-      if( ij.index() != i.index() )
+      if( (ij == ijend) || (ij.index() != i.index()) )
         DUNE_THROW( ISTLError, "diagonal entry missing" );
 
       // update diagonal and multiply A_ij by D_j^{-1}
diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 75bf295..793498a 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -48,7 +48,7 @@ namespace Dune {
         coliterator ij;
 
         // eliminate entries left of diagonal; store L factor
-        for (ij=(*i).begin(); ij.index()<i.index(); ++ij)
+        for (ij=(*i).begin(); ij!=endij && ij.index()<i.index(); ++ij)
         {
           // find A_jj which eliminates A_ij
           coliterator jj = A[ij.index()].find(ij.index());
@@ -78,7 +78,7 @@ namespace Dune {
         }
 
         // invert pivot and store it in A
-        if (ij.index()!=i.index())
+        if (ij==endij || ij.index()!=i.index())
           DUNE_THROW(ISTLError,"diagonal entry missing");
         try {
           Impl::asMatrix(*ij).invert();   // compute inverse of diagonal block
@@ -196,7 +196,7 @@ namespace Dune {
           rowpattern[j.index()] = 0;
 
         // eliminate entries in row which are to the left of the diagonal
-        for (mapiterator ik=rowpattern.begin(); (*ik).first<i.index(); ++ik)
+        for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end() && (*ik).first<i.index(); ++ik)
         {
           if ((*ik).second<n)
           {
@@ -220,6 +220,9 @@ namespace Dune {
           }
         }
 
+        if (rowpattern.find(i.index())==rowpattern.end())
+          DUNE_THROW(ISTLError,"diagonal entry missing");
+
         // create row
         for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end(); ++ik)
           ci.insert((*ik).first);
-- 
2.43.0


From b99d9d2b84bfc87e816a2dd85f4aeb761e6983cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 25/91] fix: Matrix Market output writes complex entries as two
 numbers

---
 dune/istl/matrixmarket.hh | 56 ++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5c2d782..a647f6d 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -896,14 +896,35 @@ namespace Dune
     istr >> cols;
   }
 
+  // Read a number. The parts of a complex number are separated by a blank, the pair form
+  // (x,y) is accepted, too.
+  template<typename T>
+  void mm_read_number(T& number, std::istream& istr)
+  {
+    if constexpr (MatrixMarketImpl::is_complex<T>::value) {
+      if((istr>>std::ws).peek()=='(')
+        istr>>number;
+      else {
+        typename T::value_type real{}, imag{};
+        istr>>real>>imag;
+        number = {real, imag};
+      }
+    }
+    else
+      istr>>number;
+  }
+
   template<typename T, typename A>
   void mm_read_vector_entries(Dune::BlockVector<T,A>& vector,
                               std::size_t size,
                               std::istream& istr,
                               size_t lane)
   {
-    for (int i=0; size>0; ++i, --size)
-        istr>>Simd::lane(lane,vector[i]);
+    for (int i=0; size>0; ++i, --size) {
+      Simd::Scalar<T> val{};
+      mm_read_number(val, istr);
+      Simd::lane(lane, vector[i])=val;
+    }
   }
 
   template<typename T, typename A, int entries>
@@ -913,8 +934,8 @@ namespace Dune
                               size_t lane)
   {
     for(int i=0; size>0; ++i, --size) {
-      Simd::Scalar<T> val;
-      istr>>val;
+      Simd::Scalar<T> val{};
+      mm_read_number(val, istr);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -1025,6 +1046,16 @@ namespace Dune
     readSparseEntries(matrix, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
+  // Print a number. The parts of a complex number are separated by a blank.
+  template<typename T>
+  void mm_print_number(const T& number, std::ostream& ostr)
+  {
+    if constexpr (MatrixMarketImpl::is_complex<T>::value)
+      ostr << number.real() << " " << number.imag();
+    else
+      ostr << number;
+  }
+
   // Print a scalar entry
   template<typename B>
   void mm_print_entry(const B& entry,
@@ -1032,14 +1063,20 @@ namespace Dune
                       std::size_t colidx,
                       std::ostream& ostr)
   {
-    if constexpr (IsNumber<B>())
-      ostr << rowidx << " " << colidx << " " << entry << std::endl;
+    if constexpr (IsNumber<B>()) {
+      ostr << rowidx << " " << colidx << " ";
+      mm_print_number(entry, ostr);
+      ostr << std::endl;
+    }
     else
     {
       for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
         int coli=colidx;
-        for (auto col = row->begin(); col != row->end(); ++col, ++coli)
-          ostr<< rowidx<<" "<<coli<<" "<<*col<<std::endl;
+        for (auto col = row->begin(); col != row->end(); ++col, ++coli) {
+          ostr<< rowidx<<" "<<coli<<" ";
+          mm_print_number(*col, ostr);
+          ostr<<std::endl;
+        }
       }
     }
   }
@@ -1050,7 +1087,8 @@ namespace Dune
                              const std::integral_constant<int,1>&,
                              size_t lane)
   {
-    ostr<<Simd::lane(lane,entry)<<std::endl;
+    mm_print_number(Simd::lane(lane,entry), ostr);
+    ostr<<std::endl;
   }
 
   // Write a vector
-- 
2.43.0


From 255329f39617ece2e94502f8477302e40ad1a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 26/91] fix: Matrix Market reader reserves the exact number of
 nonzeros

---
 dune/istl/matrixmarket.hh | 46 ++++++++++++---------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index a647f6d..436c752 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -542,31 +542,6 @@ namespace Dune
 
     }
 
-    template<std::size_t brows, std::size_t bcols>
-    std::tuple<std::size_t, std::size_t, std::size_t>
-    calculateNNZ(std::size_t rows, std::size_t cols, std::size_t entries, const MMHeader& header)
-    {
-      std::size_t blockrows=rows/brows;
-      std::size_t blockcols=cols/bcols;
-      std::size_t blocksize=brows*bcols;
-      std::size_t blockentries=0;
-
-      switch(header.structure)
-      {
-      case general :
-        blockentries = entries/blocksize; break;
-      case skew_symmetric :
-        blockentries = 2*entries/blocksize; break;
-      case symmetric :
-        blockentries = (2*entries-rows)/blocksize; break;
-      case hermitian :
-        blockentries = (2*entries-rows)/blocksize; break;
-      default :
-        throw Dune::NotImplemented();
-      }
-      return std::make_tuple(blockrows, blockcols, blockentries);
-    }
-
     /*
      *   @brief Storage class for the column index and the numeric value.
      *
@@ -826,8 +801,19 @@ namespace Dune
                    "Only general, symmetric, skew-symmetric and hermitian is supported right now!");
       }
 
+      // Reserve memory for exactly the blocks that occur
+      std::size_t nnz=0;
+      std::set<std::size_t> blockCols;
+      for(std::size_t blockRow=0; blockRow<matrix.N(); ++blockRow) {
+        blockCols.clear();
+        for(std::size_t brow=blockRow*brows; brow<(blockRow+1)*brows; ++brow)
+          for(const auto& entry : rows[brow])
+            blockCols.insert(entry.index/bcols);
+        nnz+=blockCols.size();
+      }
+      matrix.setSize(matrix.N(), matrix.M(), nnz);
+
       // Setup the matrix sparsity pattern
-      int nnz=0;
       for(typename Matrix::CreateIterator iter=matrix.createbegin();
           iter!= matrix.createend(); ++iter)
       {
@@ -836,7 +822,7 @@ namespace Dune
         {
           typedef typename std::set<IndexData<D> >::const_iterator Siter;
           for(Siter siter=rows[brow].begin(), send=rows[brow].end();
-              siter != send; ++siter, ++nnz)
+              siter != send; ++siter)
             iter.insert(siter->index/bcols);
         }
       }
@@ -1026,18 +1012,14 @@ namespace Dune
 
     istr >>entries;
 
-    std::size_t nnz, blockrows, blockcols;
-
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
-    std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
-
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
 
 
-    matrix.setSize(blockrows, blockcols, nnz);
+    matrix.setSize(rows/brows, cols/bcols);
     matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
 
     if(header.type==array_type)
-- 
2.43.0


From b973cf13311b953d11e72d4e1ee2224886deac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 27/91] fix: Matrix Market reader reports malformed entries

---
 dune/istl/matrixmarket.hh | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 436c752..69f18df 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -61,6 +61,9 @@ namespace Dune
    * @brief Provides classes for reading and writing MatrixMarket Files with
    * an extension for parallel matrices.
    */
+  class MatrixMarketFormatError : public Dune::Exception
+  {};
+
   namespace MatrixMarketImpl
   {
     /**
@@ -751,6 +754,9 @@ namespace Dune
       // store entries together with column index in a separate
       // data structure
       std::vector<std::set<IndexData<D> > > rows(matrix.N()*brows);
+      const std::size_t numCols = matrix.M()*bcols;
+      if(mmHeader.structure!=general && rows.size()!=numCols)
+        DUNE_THROW(MatrixMarketFormatError, "Only square matrices can be symmetric, skew-symmetric, or hermitian!");
 
       auto readloop = [&] (auto symmetryFixup) {
         for(std::size_t i = 0; i < entries; ++i) {
@@ -759,9 +765,11 @@ namespace Dune
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          assert(row/bcols<matrix.N());
           file>>data;
-          assert(data.index/bcols<matrix.M());
+          if(!file)
+            DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of " << entries << "!");
+          if(row>=rows.size() || data.index>=numCols)
+            DUNE_THROW(MatrixMarketFormatError, "Index of entry " << i+1 << " is out of range!");
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
@@ -850,10 +858,6 @@ namespace Dune
 
   } // end namespace MatrixMarketImpl
 
-  class MatrixMarketFormatError : public Dune::Exception
-  {};
-
-
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
                              MatrixMarketImpl::MMHeader& header, std::istream& istr,
                              bool isVector)
@@ -880,6 +884,8 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
     istr >> cols;
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the matrix!");
   }
 
   // Read a number. The parts of a complex number are separated by a blank, the pair form
@@ -971,6 +977,8 @@ namespace Dune
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
       mm_read_vector_entries(vector, rows, istr, l);
     }
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read all entries of the vector!");
   }
 
   /**
@@ -1011,6 +1019,8 @@ namespace Dune
       throw MatrixMarketFormatError();
 
     istr >>entries;
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the matrix!");
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
@@ -1019,6 +1029,9 @@ namespace Dune
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
 
 
+    if(rows%brows!=0 || cols%bcols!=0)
+      DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
+
     matrix.setSize(rows/brows, cols/bcols);
     matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
 
-- 
2.43.0


From e14250593e47caeba183f9201930d978aa8be473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 28/91] fix: Matrix Market header accepts blank lines and any
 case of the object name

---
 dune/istl/matrixmarket.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 69f18df..33eafb7 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -341,14 +341,12 @@ namespace Dune
 
     inline void skipComments(std::istream& file)
     {
-      lineFeed(file);
-      char c=file.peek();
-      // ignore comment lines
-      while(c=='%')
+      // ignore blank lines and comment lines
+      while(lineFeed(file) || file.peek()=='%')
       {
         /* discard the rest of the line */
-        file.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
-        c=file.peek();
+        if(file.peek()=='%')
+          file.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
       }
     }
 
@@ -377,6 +375,8 @@ namespace Dune
       /* read the matrix_type */
       file >> buffer;
 
+      std::transform(buffer.begin(), buffer.end(), buffer.begin(),
+                     ::tolower);
       if(buffer != "matrix")
       {
         /* discard the rest of the line */
-- 
2.43.0


From f1c2e3541f13146007421c1002b2ab17dfa0b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 29/91] fix: Matrix Market reader converts between the field
 type of the file and of the matrix

---
 dune/istl/matrixmarket.hh | 54 +++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 33eafb7..e71e5a3 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -644,6 +644,32 @@ namespace Dune
       return is;
     }
 
+    template<class T> struct is_complex : std::false_type {};
+    template<class T> struct is_complex<std::complex<T>> : std::true_type {};
+
+    /**
+     * @brief Read IndexData from a stream.
+     * @param is The input stream we read.
+     * @param data Where to store the read data.
+     * @param ctype The field type of the file. Pattern files contain indices only,
+     *        real and integer values are the real part of a complex number.
+     */
+    template<typename T>
+    void readIndexData(std::istream& is, IndexData<NumericWrapper<T>>& data, MM_CTYPE ctype)
+    {
+      if(ctype==pattern || (is_complex<T>::value && ctype!=complex_type)) {
+        is>>data.index;
+        --data.index;
+        if(ctype!=pattern) {
+          double real{};
+          is>>real;
+          data.number = static_cast<T>(real);
+        }
+      }
+      else
+        is>>data;
+    }
+
     /**
      * @brief Functor to the data values of the matrix.
      *
@@ -703,9 +729,6 @@ namespace Dune
       {}
     };
 
-    template<class T> struct is_complex : std::false_type {};
-    template<class T> struct is_complex<std::complex<T>> : std::true_type {};
-
     // wrapper for std::conj. Returns T if T is not complex.
     template<class T>
     std::enable_if_t<!is_complex<T>::value, T> conj(const T& r){
@@ -765,7 +788,7 @@ namespace Dune
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          file>>data;
+          readIndexData(file, data, mmHeader.ctype);
           if(!file)
             DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of " << entries << "!");
           if(row>=rows.size() || data.index>=numCols)
@@ -891,10 +914,10 @@ namespace Dune
   // Read a number. The parts of a complex number are separated by a blank, the pair form
   // (x,y) is accepted, too.
   template<typename T>
-  void mm_read_number(T& number, std::istream& istr)
+  void mm_read_number(T& number, std::istream& istr, MatrixMarketImpl::MM_CTYPE ctype)
   {
     if constexpr (MatrixMarketImpl::is_complex<T>::value) {
-      if((istr>>std::ws).peek()=='(')
+      if(ctype!=MatrixMarketImpl::complex_type || (istr>>std::ws).peek()=='(')
         istr>>number;
       else {
         typename T::value_type real{}, imag{};
@@ -910,11 +933,12 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<T,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              MatrixMarketImpl::MM_CTYPE ctype = MatrixMarketImpl::complex_type)
   {
     for (int i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val{};
-      mm_read_number(val, istr);
+      mm_read_number(val, istr, ctype);
       Simd::lane(lane, vector[i])=val;
     }
   }
@@ -923,11 +947,12 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<Dune::FieldVector<T,entries>,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              MatrixMarketImpl::MM_CTYPE ctype = MatrixMarketImpl::complex_type)
   {
     for(int i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val{};
-      mm_read_number(val, istr);
+      mm_read_number(val, istr, ctype);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -956,6 +981,10 @@ namespace Dune
         DUNE_THROW(MatrixMarketFormatError, "cols does not match the number of lanes in the field_type!");
     }
 
+    if(header.ctype==pattern ||
+       (header.ctype==complex_type && !is_complex<Simd::Scalar<field_type>>::value))
+      DUNE_THROW(MatrixMarketFormatError, "Entries of this type cannot be stored in the vector!");
+
     if(header.type!=array_type)
       DUNE_THROW(MatrixMarketFormatError, "Vectors have to be stored in array format!");
 
@@ -975,7 +1004,7 @@ namespace Dune
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
-      mm_read_vector_entries(vector, rows, istr, l);
+      mm_read_vector_entries(vector, rows, istr, l, header.ctype);
     }
     if(!istr)
       DUNE_THROW(MatrixMarketFormatError, "Could not read all entries of the vector!");
@@ -1029,6 +1058,9 @@ namespace Dune
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
 
 
+    if(header.ctype==complex_type && !is_complex<typename Matrix::field_type>::value)
+      DUNE_THROW(MatrixMarketFormatError, "Complex entries cannot be stored in a matrix of real numbers!");
+
     if(rows%brows!=0 || cols%bcols!=0)
       DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
 
-- 
2.43.0


From f35848152364613930ba50867f020ae3c50516e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 30/91] fix: OwnerOverlapCopyCommunication constructor checks
 the iterator before dereferencing it

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index ebd2745..91590dd 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -626,7 +626,7 @@ namespace Dune {
           }
 
           // position to correct entry in parallel index set
-          while (pi->global()!=std::get<1>(*i) && pi!=pis.end())
+          while (pi!=pis.end() && pi->global()!=std::get<1>(*i))
             ++pi;
           if (pi==pis.end())
             DUNE_THROW(ISTLError,"OwnerOverlapCopyCommunication: global index not in index set");
-- 
2.43.0


From d6f07fee509dc13c57944e5da30be1b8406c1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 31/91] fix: OwnerOverlapCopyCommunication::dot conjugates its
 first argument

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index 91590dd..dea5934 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -411,7 +411,7 @@ namespace Dune {
       result = T2(0.0);
 
       for (typename T1::size_type i=0; i<x.size(); i++)
-        result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);
+        result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);
       result = cc.sum(result);
     }
 
-- 
2.43.0


From c7524b70cc99c63dfba941315050a09bd164d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 32/91] fix: repartitioning with processes that have no
 neighbours in the new partition

---
 dune/istl/repartition.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 1646810..90a0a62 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_ISTL_REPARTITION_HH
 #define DUNE_ISTL_REPARTITION_HH
 
+#include <algorithm>
 #include <cassert>
 #include <map>
 #include <utility>
@@ -1833,7 +1834,11 @@ namespace Dune
 
 
     if(color != MPI_UNDEFINED) {
-      outcomm->remoteIndices().setNeighbours(tneighbors);
+      // Without any neighbours RemoteIndices exchanges the indices with all processes.
+      // This has to be the same choice on all processes.
+      tneighbors.erase(std::remove(tneighbors.begin(), tneighbors.end(), newrank), tneighbors.end());
+      if(outcomm->communicator().min(tneighbors.size()) > 0)
+        outcomm->remoteIndices().setNeighbours(tneighbors);
       outcomm->remoteIndices().template rebuild<true>();
 
     }
-- 
2.43.0


From 25eaa2270cebfbbb7411c8d2a2b116ee34b783ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 33/91] fix: MatrixRowGatherScatter does not dereference the
 end iterator

---
 dune/istl/matrixredistribute.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 00ad7d5..08febd9 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -616,8 +616,7 @@ namespace Dune
       // std::numeric_limits<GlobalIndex>::max()
       // and receiver will ignore it.
       if (col==cont.matrix[i].end()) {
-        numlimits = std::numeric_limits<GlobalIndex>::max();
-        datastore = Data(numlimits,*col);
+        datastore.first = std::numeric_limits<GlobalIndex>::max();
         return datastore;
       }
       else {
-- 
2.43.0


From 5ebaad4320e29f912b67cce2e04e2705ff2f2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 34/91] fix: redistributeMatrixEntries can be called repeatedly
 in the nonoverlapping case

---
 dune/istl/matrixredistribute.hh | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 08febd9..b325ece 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -689,13 +689,11 @@ namespace Dune
 
     // build copy to owner interface to get missing matrix values for novlp case
     if (SolverCategory::category(origComm) == SolverCategory::nonoverlapping) {
-      RemoteIndices<IndexSet> *ris = new RemoteIndices<IndexSet>(origComm.indexSet(),
-                                                                 newComm.indexSet(),
-                                                                 origComm.communicator());
-      ris->template rebuild<true>();
+      RemoteIndices<IndexSet> ris(origComm.indexSet(), newComm.indexSet(), origComm.communicator());
+      ris.template rebuild<true>();
 
       ri.getInterface().free();
-      ri.getInterface().build(*ris,copyflags,ownerflags);
+      ri.getInterface().build(ris,copyflags,ownerflags);
 
       // get copy rowsizes
       CommMatrixRowSize<M,RI> commRowSize_copy(origMatrix, ri);
@@ -757,6 +755,7 @@ namespace Dune
                                  RedistributeInformation<C>& ri)
   {
     typedef typename C::ParallelIndexSet IndexSet;
+    typename C::CopySet copyflags;
     typename C::OwnerSet ownerflags;
     std::vector<typename M::size_type> rowsize(newComm.indexSet().size(), 0);
     std::vector<typename M::size_type> copyrowsize(newComm.indexSet().size(), 0);
@@ -775,6 +774,13 @@ namespace Dune
 
 
     if (SolverCategory::category(origComm) == SolverCategory::nonoverlapping) {
+      // the interface might already be the one between the owners, if the
+      // entries have been redistributed before
+      RemoteIndices<IndexSet> ris(origComm.indexSet(), newComm.indexSet(), origComm.communicator());
+      ris.template rebuild<true>();
+      ri.getInterface().free();
+      ri.getInterface().build(ris,copyflags,ownerflags);
+
       // fill sparsity pattern from copy rows
       CommMatrixRow<M,IndexSet> origrow_copy(origMatrix, origComm.globalLookup(),
                                              newComm.indexSet(), backwardscopyrowsize);
@@ -783,11 +789,7 @@ namespace Dune
       ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow_copy,
                                                                     newrow_copy);
       ri.getInterface().free();
-      RemoteIndices<IndexSet> *ris = new RemoteIndices<IndexSet>(origComm.indexSet(),
-                                                                 newComm.indexSet(),
-                                                                 origComm.communicator());
-      ris->template rebuild<true>();
-      ri.getInterface().build(*ris,ownerflags,ownerflags);
+      ri.getInterface().build(ris,ownerflags,ownerflags);
     }
 
     CommMatrixRow<M,IndexSet>
-- 
2.43.0


From 689fd40b9b3e1cb59c1c5094cd1d2ff6885f6e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 35/91] fix: matrix redistribution keeps overlap columns in the
 overlapping case

---
 dune/istl/matrixredistribute.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index b325ece..f6c0792 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -357,6 +357,8 @@ namespace Dune
     const I& aggidxset;
     std::vector<std::set<size_type> > sparsity;
     const std::vector<size_type>* rowsize;
+    /** @brief Whether columns with attribute overlap are ghosts (nonoverlapping case) and not sent. */
+    bool skipGhosts = false;
   };
 
   template<class M, class I>
@@ -450,6 +452,8 @@ namespace Dune
     const I& aggidxset;
     /** @brief row size information for the receiving side. */
     std::vector<size_t>* rowsize; // row sizes differ from sender side in overlap!
+    /** @brief Whether columns with attribute overlap are ghosts (nonoverlapping case) and not sent. */
+    bool skipGhosts = false;
   };
 
   template<class M, class I>
@@ -542,7 +546,7 @@ namespace Dune
         const typename I::IndexPair* index=cont.idxset.pair(col.index());
         assert(index);
         // Only send index if col is no ghost
-        if ( index->local().attribute() != 2)
+        if ( !cont.skipGhosts || index->local().attribute() != OwnerOverlapCopyAttributeSet::overlap)
           return index->global();
         else {
           numlimits = std::numeric_limits<GlobalIndex>::max();
@@ -625,7 +629,7 @@ namespace Dune
         assert(index);
         // Store the data to prevent reference to temporary
         // Only send index if col is no ghost
-        if ( index->local().attribute() != 2)
+        if ( !cont.skipGhosts || index->local().attribute() != OwnerOverlapCopyAttributeSet::overlap)
           datastore = Data(index->global(),*col);
         else {
           numlimits = std::numeric_limits<GlobalIndex>::max();
@@ -685,6 +689,7 @@ namespace Dune
     CommMatrixSparsityPattern<M,IndexSet>
     newsp(origMatrix, origComm.globalLookup(), newComm.indexSet(), rowsize);
 
+    origsp.skipGhosts = SolverCategory::category(origComm) == SolverCategory::nonoverlapping;
     ri.template redistribute<MatrixSparsityPatternGatherScatter<M,IndexSet> >(origsp,newsp);
 
     // build copy to owner interface to get missing matrix values for novlp case
@@ -716,6 +721,7 @@ namespace Dune
                                                         backwardscopyrowsize);
       CommMatrixSparsityPattern<M,IndexSet> newsp_copy(origMatrix, origComm.globalLookup(),
                                                        newComm.indexSet(), copyrowsize);
+      origsp_copy.skipGhosts = true;
       ri.template redistribute<MatrixSparsityPatternGatherScatter<M,IndexSet> >(origsp_copy,
                                                                                 newsp_copy);
 
@@ -786,6 +792,7 @@ namespace Dune
                                              newComm.indexSet(), backwardscopyrowsize);
       CommMatrixRow<M,IndexSet> newrow_copy(newMatrix, origComm.globalLookup(),
                                             newComm.indexSet(),copyrowsize);
+      origrow_copy.skipGhosts = true;
       ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow_copy,
                                                                     newrow_copy);
       ri.getInterface().free();
@@ -796,6 +803,7 @@ namespace Dune
     origrow(origMatrix, origComm.globalLookup(), newComm.indexSet());
     CommMatrixRow<M,IndexSet>
     newrow(newMatrix, origComm.globalLookup(), newComm.indexSet(),rowsize);
+    origrow.skipGhosts = SolverCategory::category(origComm) == SolverCategory::nonoverlapping;
     ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow,newrow);
     if (SolverCategory::category(origComm) != static_cast<int>(SolverCategory::nonoverlapping))
       newrow.setOverlapRowsToDirichlet();
-- 
2.43.0


From 1c14255dda41e9a8fc45c58ccc0fdb5e4732e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 36/91] fix: redistributed nonoverlapping matrix has no
 uninitialized entries

---
 dune/istl/matrixredistribute.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index f6c0792..79b72db 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -780,6 +780,9 @@ namespace Dune
 
 
     if (SolverCategory::category(origComm) == SolverCategory::nonoverlapping) {
+      // entries that no process sends, e.g. in rows of copies, are zero
+      newMatrix = 0;
+
       // the interface might already be the one between the owners, if the
       // entries have been redistributed before
       RemoteIndices<IndexSet> ris(origComm.indexSet(), newComm.indexSet(), origComm.communicator());
-- 
2.43.0


From ac6ce2cf210d51e458febab87b9f13739c715e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 37/91] fix: BTDMatrix::solve accepts an empty matrix

---
 dune/istl/btdmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 2bd2a6e..8093298 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -119,6 +119,9 @@ namespace Dune {
      */
     template <class V>
     void solve (V& x, const V& rhs) const {
+      // nothing to do for an empty matrix
+      if (this->N()==0)
+        return;
 
       // special handling for 1x1 matrices.  The generic algorithm doesn't work for them
       if (this->N()==1) {
-- 
2.43.0


From abb869330e766404c84b06d94bd3f755d640e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 38/91] fix: BTDMatrix and BDMatrix can be resized in any state

---
 dune/istl/bdmatrix.hh  | 3 +++
 dune/istl/btdmatrix.hh | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dune/istl/bdmatrix.hh b/dune/istl/bdmatrix.hh
index 19ed0f3..7f21fdf 100644
--- a/dune/istl/bdmatrix.hh
+++ b/dune/istl/bdmatrix.hh
@@ -84,6 +84,9 @@ namespace Dune {
                                      size,   // columns
                                      size);  // nonzeros
 
+      // copied and default-constructed matrices are not in random build mode
+      this->setBuildMode(BCRSMatrix<B,A>::random);
+
       for (auto i : range(size))
         this->BCRSMatrix<B,A>::setrowsize(i, 1);
 
diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 8093298..2b44d57 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -81,6 +81,9 @@ namespace Dune {
                                      size,   // columns
                                      nonZeros);
 
+      // copied and default-constructed matrices are not in random build mode
+      this->setBuildMode(BCRSMatrix<B,A>::random);
+
       // Set number of entries for each row
       // All rows get three entries, except for the first and the last one
       for (size_t i=0; i<size; i++)
-- 
2.43.0


From 025d390c8ba6154a5257ec80ba32cab31e4ff2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 39/91] fix: Matlab output of a matrix without columns

---
 dune/istl/io.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index d7bd69c..db09029 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -436,7 +436,7 @@ namespace Dune {
     if (colOffset.size() > 0)
       colOffset[0] = 0;
 
-    for (typename MatrixType::size_type i=0; i<matrix.M()-1; i++)
+    for (typename MatrixType::size_type i=0; i+1<matrix.M(); i++)
       colOffset[i+1] = colOffset[i] +
                        MatrixDimension<MatrixType>::coldim(matrix,i);
 
-- 
2.43.0


From b6d48b2e5642b5cfceb0f5fa6ed9d2f5657b203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 40/91] fix: MatrixDimension of a BCRSMatrix with empty rows or
 columns

---
 dune/istl/matrixutils.hh | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index c5d93ef..3d5e850 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -266,11 +266,11 @@ namespace Dune
 
     static size_type rowdim (const Matrix& A, size_type i)
     {
-      const B* row = A.r[i].getptr();
-      if(row)
-        return MatrixDimension<block_type>::rowdim(*row);
-      else
-        return 0;
+      if (A.r[i].getsize() > 0)
+        return MatrixDimension<block_type>::rowdim(*A.r[i].getptr());
+
+      // empty row: only the size of a statically sized block is known
+      return MatrixDimension<block_type>::rowdim(block_type());
     }
 
     static size_type coldim (const Matrix& A, size_type c)
@@ -297,8 +297,8 @@ namespace Dune
         }
       }
 
-      // not found
-      return 0;
+      // empty column: only the size of a statically sized block is known
+      return MatrixDimension<block_type>::coldim(block_type());
     }
 
     static size_type rowdim (const Matrix& A){
@@ -327,9 +327,11 @@ namespace Dune
       size_type sum = 0;
       for (typename std::vector<size_type>::iterator it=coldims.begin();
            it!=coldims.end(); ++it)
-        // skip rows for which no coldim could be determined
-        if ((*it)>=0)
+        // for empty columns only the size of a statically sized block is known
+        if (*it != std::numeric_limits<size_type>::max())
           sum += *it;
+        else
+          sum += MatrixDimension<block_type>::coldim(block_type());
 
       return sum;
     }
-- 
2.43.0


From c84a3f675b6c76c9fcd65d6cd49d6f7a096f4117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 41/91] fix: MatrixDimension of a dense matrix without rows or
 columns

---
 dune/istl/matrixutils.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index 3d5e850..8414243 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -231,11 +231,15 @@ namespace Dune
 
     static size_type rowdim (const Matrix<B,TA>& A, size_type i)
     {
+      if (A.M() == 0)
+        return MatrixDimension<block_type>::rowdim(block_type());
       return MatrixDimension<block_type>::rowdim(A[i][0]);
     }
 
     static size_type coldim (const Matrix<B,TA>& A, size_type c)
     {
+      if (A.N() == 0)
+        return MatrixDimension<block_type>::coldim(block_type());
       return MatrixDimension<block_type>::coldim(A[0][c]);
     }
 
-- 
2.43.0


From 9a5005242db0fa9ffdf8aa01d20a75ebba00ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 42/91] fix: flatMatrixForEach visits only the stored entries
 of BTDMatrix and BDMatrix

---
 dune/istl/foreach.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dune/istl/foreach.hh b/dune/istl/foreach.hh
index df7ec90..4b9dcff 100644
--- a/dune/istl/foreach.hh
+++ b/dune/istl/foreach.hh
@@ -12,6 +12,8 @@
 #include<dune/common/indices.hh>
 
 #include<dune/istl/bcrsmatrix.hh>
+#include<dune/istl/bdmatrix.hh>
+#include<dune/istl/btdmatrix.hh>
 #include<dune/istl/scaledidmatrix.hh>
 
 namespace Dune{
@@ -35,6 +37,12 @@ namespace Dune{
   template <class B, class A>
   struct IsRowMajorSparse<BCRSMatrix<B,A>> : std::true_type {};
 
+  template <class B, class A>
+  struct IsRowMajorSparse<BDMatrix<B,A>> : std::true_type {};
+
+  template <class B, class A>
+  struct IsRowMajorSparse<BTDMatrix<B,A>> : std::true_type {};
+
   template <class K, int n>
   struct IsRowMajorSparse<DiagonalMatrix<K,n>> : std::true_type {};
 
-- 
2.43.0


From 4cf68255ef4cb364e56e325ce0faf8c151ef5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 43/91] fix: automatic width and height of SVG drawings are not
 zero

---
 dune/istl/io.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index db09029..243a3f2 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -553,9 +553,9 @@ namespace Dune {
       // if empty, we try to figure out a sensible value of width and height
       if (opts.width == 0 and opts.height == 0)
         width = height = 500;
-      if (opts.width == 0)
+      else if (opts.width == 0)
         width = opts.height * (double(col_offset) / row_offset);
-      if (opts.height == 0)
+      else if (opts.height == 0)
         height = opts.width * (double(row_offset) / col_offset);
 
       // scale group w.r.t final offsets
-- 
2.43.0


From 5e92252e82988b9993f2681d02045e9edfd08ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 44/91] fix: UMFPack::apply with raw pointers compiles for
 complex matrices

---
 dune/istl/umfpack.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 416d7af..eeceffa 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -470,8 +470,8 @@ namespace Dune {
                     umfpackMatrix_.getColStart(),
                     umfpackMatrix_.getRowIndex(),
                     umfpackMatrix_.getValues(),
-                    x,
-                    b,
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
                     UMF_Numeric,
                     UMF_Control,
                     UMF_Apply_Info);
-- 
2.43.0


From 6b9a5c5ee1cbe27a1ff55a1999562faf7ce1a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 45/91] fix: SPQR handles complex matrices and vectors as
 complex numbers

---
 dune/istl/spqr.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index 98bbf47..4278640 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -291,7 +291,8 @@ namespace Dune {
       const std::size_t nnz(spqrMatrix_.getColStart()[ncols]);
 
       // initialise the matrix A (sorted, packed, unsymmetric, real entries)
-      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, 1, cc_);
+      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0,
+                                     std::is_same<T,double>::value ? CHOLMOD_REAL : CHOLMOD_COMPLEX, cc_);
 
       // copy all the entries of Ap, Ai, Ax
       for(std::size_t k = 0; k != (ncols+1); ++k)
-- 
2.43.0


From 4762bdfa7d01e1ad2a22f6715fc7aada7e65df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 46/91] fix: Cholmod::setMatrix forgets the ignored dofs and
 factorization of the previous matrix

---
 dune/istl/cholmod.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/cholmod.hh b/dune/istl/cholmod.hh
index bfc8457..8428c66 100644
--- a/dune/istl/cholmod.hh
+++ b/dune/istl/cholmod.hh
@@ -342,6 +342,11 @@ public:
   template<class Matrix, class Ignore>
   void setMatrix(const Matrix& matrix, const Ignore* ignore)
   {
+    // drop the mapping and the factorization of a matrix set before
+    subIndices_.clear();
+    if (L_)
+      CholmodMethod::free_factor(&L_, &c_);
+
     // count the number of entries and diagonal entries
     size_t nonZeros = 0;
     size_t numberOfIgnoredDofs = 0;
-- 
2.43.0


From 009a9dfe6967682fab54ff29febe98ee01f9b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 47/91] fix: BCCSMatrix assignment of self, of empty matrices
 and for other index types; free leaves no dangling pointers

---
 dune/istl/bccsmatrix.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bccsmatrix.hh b/dune/istl/bccsmatrix.hh
index 39103f8..52875b6 100644
--- a/dune/istl/bccsmatrix.hh
+++ b/dune/istl/bccsmatrix.hh
@@ -111,20 +111,22 @@ namespace Dune::ISTL::Impl
     /** \brief Assignment operator */
     BCCSMatrix& operator=(const BCCSMatrix& mat)
     {
+      if(this==&mat)
+        return *this;
       if(N_+M_+Nnz_!=0)
         free();
       N_=mat.N_;
       M_=mat.M_;
       Nnz_= mat.Nnz_;
       if(M_>0) {
-        colstart=new size_type[M_+1];
+        colstart=new Index[M_+1];
         for(size_type i=0; i<=M_; ++i)
           colstart[i]=mat.colstart[i];
       }
 
       if(Nnz_>0) {
         values = new B[Nnz_];
-        rowindex = new size_type[Nnz_];
+        rowindex = new Index[Nnz_];
 
         for(size_type i=0; i<Nnz_; ++i)
           values[i]=mat.values[i];
@@ -141,6 +143,9 @@ namespace Dune::ISTL::Impl
       delete[] values;
       delete[] rowindex;
       delete[] colstart;
+      values = nullptr;
+      rowindex = nullptr;
+      colstart = nullptr;
       N_ = 0;
       M_ = 0;
       Nnz_ = 0;
-- 
2.43.0


From fdf839e10f34c78c5fc0dcd83c2580015bcbaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 48/91] fix: UMFPack solves with a decomposition loaded from
 file

---
 dune/istl/umfpack.hh | 68 +++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index eeceffa..a3c11b9 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -7,6 +7,7 @@
 
 #if HAVE_SUITESPARSE_UMFPACK || defined DOXYGEN
 
+#include<algorithm>
 #include<complex>
 #include<type_traits>
 
@@ -74,6 +75,11 @@ namespace Dune {
       umfpack_dl_free_symbolic(args...);
     }
     template<typename... A>
+    static int get_lunz(A... args)
+    {
+      return umfpack_dl_get_lunz(args...);
+    }
+    template<typename... A>
     static int load_numeric(A... args)
     {
       return umfpack_dl_load_numeric(args...);
@@ -132,6 +138,11 @@ namespace Dune {
       umfpack_zl_free_symbolic(args...);
     }
     template<typename... A>
+    static int get_lunz(A... args)
+    {
+      return umfpack_zl_get_lunz(args...);
+    }
+    template<typename... A>
     static int load_numeric(A... args)
     {
       return umfpack_zl_load_numeric(args...);
@@ -364,7 +375,7 @@ namespace Dune {
       }
       else
       {
-        matrixIsLoaded_ = true;
+        setLoadedSize();
         std::cout << "UMFPack decomposition successfully loaded from " << file << std::endl;
       }
     }
@@ -386,7 +397,7 @@ namespace Dune {
         DUNE_THROW(Dune::Exception, "ran out of memory while loading UMFPack decomposition");
       if (errcode == UMFPACK_ERROR_file_IO)
         DUNE_THROW(Dune::Exception, "IO error while loading UMFPack decomposition");
-      matrixIsLoaded_ = true;
+      setLoadedSize();
       std::cout << "UMFPack decomposition successfully loaded from " << file << std::endl;
       setVerbosity(verbose);
     }
@@ -424,15 +435,7 @@ namespace Dune {
       });
 
       double UMF_Apply_Info[UMFPACK_INFO];
-      Caller::solve(UMFPACK_A,
-                    umfpackMatrix_.getColStart(),
-                    umfpackMatrix_.getRowIndex(),
-                    umfpackMatrix_.getValues(),
-                    reinterpret_cast<double*>(&xFlat[0]),
-                    reinterpret_cast<double*>(&bFlat[0]),
-                    UMF_Numeric,
-                    UMF_Control,
-                    UMF_Apply_Info);
+      solve(&xFlat[0], &bFlat[0], UMF_Apply_Info);
 
       // copy back to blocked vector
       flatVectorForEach(x, [&](auto&& entry, auto offset)
@@ -466,15 +469,7 @@ namespace Dune {
     void apply(T* x, T* b)
     {
       double UMF_Apply_Info[UMFPACK_INFO];
-      Caller::solve(UMFPACK_A,
-                    umfpackMatrix_.getColStart(),
-                    umfpackMatrix_.getRowIndex(),
-                    umfpackMatrix_.getValues(),
-                    reinterpret_cast<double*>(x),
-                    reinterpret_cast<double*>(b),
-                    UMF_Numeric,
-                    UMF_Control,
-                    UMF_Apply_Info);
+      solve(x, b, UMF_Apply_Info);
       printOnApply(UMF_Apply_Info);
     }
 
@@ -709,10 +704,8 @@ namespace Dune {
     void free()
     {
       if (!matrixIsLoaded_)
-      {
         Caller::free_symbolic(&UMF_Symbolic);
-        umfpackMatrix_.free();
-      }
+      umfpackMatrix_.free();
       Caller::free_numeric(&UMF_Numeric);
       matrixIsLoaded_ = false;
     }
@@ -726,6 +719,35 @@ namespace Dune {
     friend class SeqOverlappingSchwarz;
     friend struct SeqOverlappingSchwarzAssemblerHelper<UMFPack<Matrix>,true>;
 
+    /** @brief Set the matrix size according to a decomposition loaded from file */
+    void setLoadedSize()
+    {
+      matrixIsLoaded_ = true;
+      size_type lnz, unz, rows, columns, nzUDiag;
+      if (Caller::get_lunz(&lnz, &unz, &rows, &columns, &nzUDiag, UMF_Numeric) != UMFPACK_OK)
+        DUNE_THROW(Dune::Exception, "Invalid UMFPack decomposition loaded");
+      umfpackMatrix_.setSize(rows, columns);
+    }
+
+    /** @brief solves with the decomposition */
+    void solve(T* x, T* b, double* UMF_Apply_Info)
+    {
+      double control[UMFPACK_CONTROL];
+      std::copy(UMF_Control, UMF_Control + UMFPACK_CONTROL, control);
+      // iterative refinement needs the matrix, which is unknown if its decomposition was loaded from file
+      if (matrixIsLoaded_)
+        control[UMFPACK_IRSTEP] = 0;
+      Caller::solve(UMFPACK_A,
+                    umfpackMatrix_.getColStart(),
+                    umfpackMatrix_.getRowIndex(),
+                    umfpackMatrix_.getValues(),
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
+                    UMF_Numeric,
+                    control,
+                    UMF_Apply_Info);
+    }
+
     /** @brief computes the LU Decomposition */
     void decompose()
     {
-- 
2.43.0


From cef5e0d1e53dcbf35a5fd4fbefd622fbb8e26d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 49/91] fix: AMG and FastAMG from a given hierarchy and coarse
 solver neither delete the caller's solver nor look at a smoother that does
 not exist

---
 dune/istl/paamg/amg.hh     | 5 ++---
 dune/istl/paamg/fastamg.hh | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 9142d01..a4b3f1a 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -408,14 +408,13 @@ namespace Dune
                          const SmootherArgs& smootherArgs,
                          const Parameters& parms)
       : matrices_(stackobject_to_shared_ptr(matrices)), smootherArgs_(smootherArgs),
-        smoothers_(new Hierarchy<Smoother,A>), solver_(&coarseSolver),
+        smoothers_(new Hierarchy<Smoother,A>), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), update_(), scalarProduct_(0),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
         additive(parms.getAdditive()), coarsesolverconverged(true),
         coarseSmoother_(),
-// #warning should category be retrieved from matrices?
-        category_(SolverCategory::category(*smoothers_->coarsest())),
+        category_(SolverCategory::category(*matrices_->matrices().finest())),
         verbosity_(parms.debugLevel())
     {
       assert(matrices_->isBuilt());
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 84621a8..9a0673f 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -319,7 +319,7 @@ namespace Dune
     template<class M, class X, class PI, class A>
     FastAMG<M,X,PI,A>::FastAMG(OperatorHierarchy& matrices, CoarseSolver& coarseSolver,
                                const Parameters& parms, bool symmetric_)
-      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(&coarseSolver),
+      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), residual_(), scalarProduct_(),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
-- 
2.43.0


From 2df8d80538f6fe0d9da5d6c3705dacd5dd1ba296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 50/91] fix: FastAMG updates the defect with the transposed
 blocks when smoothing symmetric block matrices

---
 dune/istl/paamg/fastamgsmoother.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamgsmoother.hh b/dune/istl/paamg/fastamgsmoother.hh
index b7c157e..0036561 100644
--- a/dune/istl/paamg/fastamgsmoother.hh
+++ b/dune/istl/paamg/fastamgsmoother.hh
@@ -43,7 +43,7 @@ namespace Dune
 
           // Update residual for the symmetric case
           for(col=(*row).begin(); col.index()<row.index(); ++col)
-            col->mmv(*xIter, d[col.index()]);     //d_j-=A_ij x_i
+            col->mmtv(*xIter, d[col.index()]);     //d_j-=A_ij^T x_i
         }
       }
     };
-- 
2.43.0


From c71befab058b66f99413a31d84dc418ff6d7f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 51/91] fix: FastAMG with gamma>1 corrects the remaining defect
 instead of discarding the previous cycle, and keeps its level iterators
 together

---
 dune/istl/paamg/fastamg.hh | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 9a0673f..38fd4e7 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -601,6 +601,7 @@ namespace Dune
         //prolongate and add the correction (update is in coarse left hand side)
         --levelContext.matrix;
         --levelContext.residual;
+        --levelContext.pinfo;
 
       }
 
@@ -692,8 +693,22 @@ namespace Dune
 
         if(processNextLevel) {
           // next level
-          for(std::size_t i=0; i<gamma_; i++)
-            mgc(levelContext, *levelContext.lhs, *levelContext.rhs);
+          for(std::size_t i=0; i<gamma_; i++) {
+            if(i == 0)
+              mgc(levelContext, *levelContext.lhs, *levelContext.rhs);
+            else {
+              // a cycle starts from a zero guess: let it correct what the previous cycles left
+              Domain correction(*levelContext.lhs);
+              Range defect(*levelContext.rhs);
+              correction = 0;
+              levelContext.matrix->applyscaleadd(-1., *levelContext.lhs, defect);
+              mgc(levelContext, correction, defect);
+              *levelContext.lhs += correction;
+            }
+            // the coarsest level is solved only once
+            if(levelContext.matrix == matrices_->matrices().coarsest() && levels() == maxlevels())
+              break;
+          }
         }
 
         moveToFineLevel(levelContext, processNextLevel, v);
-- 
2.43.0


From 7fd93d006fa6193d28839d970be3aa1c90c66169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 52/91] fix: KAmgTwoGrid::coarseSolver() compiles

---
 dune/istl/paamg/kamg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/kamg.hh b/dune/istl/paamg/kamg.hh
index 2676909..0512bc4 100644
--- a/dune/istl/paamg/kamg.hh
+++ b/dune/istl/paamg/kamg.hh
@@ -94,7 +94,7 @@ namespace Dune
        */
       InverseOperator<Domain,Range>* coarseSolver()
       {
-        return coarseSolver_;
+        return coarseSolver_.get();
       }
 
       /**
-- 
2.43.0


From f02bfc8ad907f1d45b3b2f78ea80bc3521db73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 53/91] fix: a copied one-step AMG coarse solver prepares its
 own AMG

---
 dune/istl/paamg/twolevelmethod.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 336f4a4..512e6f5 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -301,7 +301,7 @@ private:
         amg_.post(x_);
     }
     AMGInverseOperator(const AMGInverseOperator& other)
-    : x_(other.x_), amg_(other.amg_), first_(other.first_)
+    : amg_(other.amg_), first_(true) // a copied amg has to be prepared again
     {
     }
   private:
-- 
2.43.0


From 81d0d00cee346d51d5c14fa502abc4b18abbec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 54/91] fix: additive AMG starts the coarse solve from zero
 instead of the correction of the previous application

---
 dune/istl/paamg/amg.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index a4b3f1a..a98c198 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1116,6 +1116,7 @@ namespace Dune
 #ifndef DUNE_AMG_NO_COARSEGRIDCORRECTION
       InverseOperatorResult res;
       pinfo->copyOwnerToAll(*rhs, *rhs);
+      *lhs=0;
       solver_->apply(*lhs, *rhs, res);
 
       if(!res.converged)
-- 
2.43.0


From 84d7e64a456502d835af544172cde46ba712affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:52 +0000
Subject: [PATCH 55/91] fix: getCoarsestAggregatesOnFinest works for a
 hierarchy with a single level

---
 dune/istl/paamg/matrixhierarchy.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 6f62666..82a0840 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -748,6 +748,13 @@ namespace Dune
     {
       int levels=aggregatesMaps().size();
       int maxlevels=parallelInformation_.finest()->communicator().max(levels);
+      if(maxlevels==1) {
+        // There is only one level and every unknown is its own aggregate.
+        data.resize(matrices_.finest()->getmat().N());
+        for(std::size_t i=0; i<data.size(); ++i)
+          data[i]=i;
+        return;
+      }
       std::size_t size=(*(aggregatesMaps().begin()))->noVertices();
       // We need an auxiliary vector for the consecutive prolongation.
       std::vector<std::size_t> tmp;
-- 
2.43.0


From 81efe778a31fff3c1a4810cc35c148c9f9cd6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:52 +0000
Subject: [PATCH 56/91] fix: do not merge aggregates into isolated vertices

---
 dune/istl/paamg/aggregates.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index a71a29e..7dd0e4c 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2173,6 +2173,7 @@ namespace Dune
       Iterator end = graph_->endEdges(vertex);
       for(Iterator edge = graph_->beginEdges(vertex); edge != end; ++edge) {
         if(aggregates[edge.target()] != AggregatesMap<Vertex>::UNAGGREGATED &&
+           aggregates[edge.target()] != AggregatesMap<Vertex>::ISOLATED &&
            graph_->getVertexProperties(edge.target()).isolated() == graph_->getVertexProperties(edge.source()).isolated()) {
           if( graph_->getVertexProperties(vertex).isolated() ||
               ((edge.properties().depends() || edge.properties().influences())
-- 
2.43.0


From 2ae83a7d2dbebdec197fc29b68e637cf791581cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:52 +0000
Subject: [PATCH 57/91] fix: aggregate growth ends if the minimum size exceeds
 the maximum size

---
 dune/istl/paamg/aggregates.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index 7dd0e4c..00dd96f 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2284,7 +2284,8 @@ namespace Dune
       using std::min;
 
       std::size_t distance_ =0;
-      while(aggregate_->size() < c.minAggregateSize()&& distance_<c.maxDistance()) {
+      while(aggregate_->size() < min(c.minAggregateSize(), c.maxAggregateSize())
+            && distance_<c.maxDistance()) {
         int maxTwoCons=0, maxOneCons=0, maxNeighbours=-1;
         double maxCon=-1;
 
-- 
2.43.0


From ac932f74836dd46cb5ebf818efb47d533932e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 58/91] fix: redistributing a matrix works if a process gets a
 single row

---
 dune/istl/matrixredistribute.hh | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 79b72db..fe7d9f8 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -232,6 +232,22 @@ namespace Dune
   };
 
 
+  namespace Impl
+  {
+    // Find the entry of a global index. In contrast to ParallelIndexSet::at this
+    // also finds the entry of a set that consists of a single index.
+    template<class I>
+    const typename I::IndexPair& findIndexPair(const I& indexSet, const typename I::GlobalIndex& global)
+    {
+      if (indexSet.size()>0) {
+        const typename I::IndexPair& pair = indexSet[global];
+        if (pair.global()==global)
+          return pair;
+      }
+      DUNE_THROW(RangeError, "Could not find entry of "<<global);
+    }
+  }
+
   /**
    * @brief Utility class to communicate and build the sparsity pattern
    * of a redistributed matrix.
@@ -558,7 +574,7 @@ namespace Dune
     {
       try{
         if (gi != std::numeric_limits<GlobalIndex>::max()) {
-          const typename I::IndexPair& ip=cont.aggidxset.at(gi);
+          const typename I::IndexPair& ip=Impl::findIndexPair(cont.aggidxset, gi);
           assert(ip.global()==gi);
           std::size_t column = ip.local();
           cont.sparsity[i].insert(column);
@@ -642,7 +658,7 @@ namespace Dune
     {
       try{
         if (data.first != std::numeric_limits<GlobalIndex>::max()) {
-          typename M::size_type column=cont.aggidxset.at(data.first).local();
+          typename M::size_type column=Impl::findIndexPair(cont.aggidxset, data.first).local();
           cont.matrix[i][column]=data.second;
         }
       }
-- 
2.43.0


From 109a28c6197675d6f6a9239375a11dcfb068f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 59/91] fix: SubGraph of an empty graph has no edges

---
 dune/istl/paamg/graph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/graph.hh b/dune/istl/paamg/graph.hh
index 5f712f8..3be6952 100644
--- a/dune/istl/paamg/graph.hh
+++ b/dune/istl/paamg/graph.hh
@@ -1980,7 +1980,7 @@ namespace Dune
 
     template<class G, class T>
     SubGraph<G,T>::SubGraph(const G& graph, const T& excluded)
-      : excluded_(excluded), noVertices_(0), endVertex_(0), maxVertex_(graph.maxVertex())
+      : excluded_(excluded), noVertices_(0), endVertex_(0), noEdges_(0), maxVertex_(graph.maxVertex())
     {
       start_ = new std::ptrdiff_t[graph.noVertices()];
       end_ = new std::ptrdiff_t[graph.noVertices()];
-- 
2.43.0


From d90215f62a32b1ca5a866294ce2c17fe171e3fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 60/91] fix: graph repartitioning gives valid domains if
 ParMETIS refuses the graph

---
 dune/istl/repartition.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 90a0a62..a20bdea 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1280,8 +1280,10 @@ namespace Dune
     // The parmetis global identifiers for the owner vertices.
     ParmetisDuneIndexMap indexMap(graph,oocomm);
     Metis::idx_t *part = new Metis::idx_t[indexMap.numOfOwnVtx()];
+    // valid domains, as ParMETIS leaves these values if it refuses the
+    // graph, e.g. because some process has no vertices.
     for(std::size_t i=0; i < indexMap.numOfOwnVtx(); ++i)
-      part[i]=mype;
+      part[i]=mype%nparts;
 
 #if !HAVE_PARMETIS
     if(oocomm.communicator().rank()==0 && nparts>1)
-- 
2.43.0


From d0aee21f43830457c048320b9a8531a102e14b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 61/91] fix: matrix hierarchy drops a redistributed level only
 if all processes take part, without deleting it twice

---
 dune/istl/matrixredistribute.hh    | 1 +
 dune/istl/paamg/matrixhierarchy.hh | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index fe7d9f8..cf60236 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -112,6 +112,7 @@ namespace Dune
     void resetSetup()
     {
       setup_=false;
+      interface.free();
     }
 
     template<class GatherScatter, class D>
diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 82a0840..1a5235c 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -582,13 +582,13 @@ namespace Dune
           delete aggregatesMap;
           aggregatesMaps_.pop_back();
 
-          if(criterion.accumulate() && mlevel.isRedistributed() && info->communicator().size()>1) {
+          if(criterion.accumulate() && mlevel.isRedistributed() && info->communicator().size()>1 &&
+             info->communicator().size()==infoLevel->communicator().size()) {
             // coarse level matrix was already redistributed, but to more than 1 process
             // Therefore need to delete the redistribution. Further down it will
-            // then be redistributed to 1 process
-            delete &(mlevel.getRedistributed().getmat());
+            // then be redistributed to 1 process. (If some processes do not take part
+            // in the redistribution, they have already left and we keep it.)
             mlevel.deleteRedistributed();
-            delete &(infoLevel.getRedistributed());
             infoLevel.deleteRedistributed();
             redistributes_.back().resetSetup();
           }
-- 
2.43.0


From cb2b58a14d3f0baf205a7fe1578bab03438ba0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:35 +0000
Subject: [PATCH 62/91] fix: ParSSOR can be used as a smoother of the AMG

---
 dune/istl/paamg/smoother.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 7783913..b4cc589 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -321,7 +321,7 @@ namespace Dune
     template<class M, class X, class Y, class C>
     struct ConstructionTraits<ParSSOR<M,X,Y,C> >
     {
-      typedef DefaultParallelConstructionArgs<M,C> Arguments;
+      typedef DefaultParallelConstructionArgs<ParSSOR<M,X,Y,C>,C> Arguments;
 
       static inline std::shared_ptr<ParSSOR<M,X,Y,C>> construct(Arguments& args)
       {
-- 
2.43.0


From bccb7e04da21783583b752446f21058612ffdfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:35 +0000
Subject: [PATCH 63/91] fix: coarse solve on redistributed data starts from a
 zero correction

---
 dune/istl/paamg/amg.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index a98c198..5cbde54 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1038,6 +1038,7 @@ namespace Dune
             // We are still participating in the computation
             levelContext.pinfo.getRedistributed().copyOwnerToAll(levelContext.rhs.getRedistributed(),
                                                     levelContext.rhs.getRedistributed());
+            levelContext.update.getRedistributed()=0;
             solver_->apply(levelContext.update.getRedistributed(),
                            levelContext.rhs.getRedistributed(), res);
           }
-- 
2.43.0


From 03f66cbabf29b73637dba03e88e804b2e162d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:35 +0000
Subject: [PATCH 64/91] fix: K-cycle AMG solves a redistributed coarsest level
 on the processes that have it

---
 dune/istl/paamg/kamg.hh | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dune/istl/paamg/kamg.hh b/dune/istl/paamg/kamg.hh
index 0512bc4..f341ef3 100644
--- a/dune/istl/paamg/kamg.hh
+++ b/dune/istl/paamg/kamg.hh
@@ -75,11 +75,16 @@ namespace Dune
           amg_.moveToCoarseLevel(*levelContext_);
 
         if(processFineLevel) {
-          typename AMG::Range b=*levelContext_->rhs;
-          typename AMG::Domain x=*levelContext_->update;
-          InverseOperatorResult res;
-          coarseSolver_->apply(x, b, res);
-          *levelContext_->update=x;
+          if(levelContext_->matrix == amg_.matrices_->matrices().coarsest() && amg_.levels()==amg_.maxlevels())
+            // Solve directly, taking care of redistributed data
+            amg_.mgc(*levelContext_);
+          else {
+            typename AMG::Range b=*levelContext_->rhs;
+            typename AMG::Domain x=*levelContext_->update;
+            InverseOperatorResult res;
+            coarseSolver_->apply(x, b, res);
+            *levelContext_->update=x;
+          }
         }
 
         amg_.moveToFineLevel(*levelContext_, processFineLevel);
@@ -301,9 +306,7 @@ namespace Dune
     {
       if(ksolvers.size()==0)
       {
-        Range td=d;
-        InverseOperatorResult res;
-        amg.solver_->apply(v,td,res);
+        amg.apply(v,d);
       }else
       {
         typedef typename Amg::LevelContext LevelContext;
-- 
2.43.0


From 7668ebd17d950aaedaf485cbeb0d4b2a13276c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 65/91] fix: ILUN subdomain solver compiles, has storage for
 its pattern and is exact

---
 dune/istl/ilusubdomainsolver.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dune/istl/ilusubdomainsolver.hh b/dune/istl/ilusubdomainsolver.hh
index 1ea13df..27e6ecc 100644
--- a/dune/istl/ilusubdomainsolver.hh
+++ b/dune/istl/ilusubdomainsolver.hh
@@ -228,10 +228,12 @@ namespace Dune {
   template<class S>
   void ILUNSubdomainSolver<M,X,Y>::setSubMatrix(const M& A, S& rowSet)
   {
-    std::size_t offset=copyToLocalMatrix(A,rowSet);
-    RILU.setSize(rowSet.size(),rowSet.size(), (1+2*offset)*rowSet.size());
+    this->copyToLocalMatrix(A,rowSet);
+    // the decomposition needs the storage of a row as soon as its pattern is known
+    RILU.setSize(rowSet.size(),rowSet.size());
     RILU.setBuildMode(matrix_type::row_wise);
-    ILU::blockILUDecomposition(this->ILU, (offset+1)/2, RILU);
+    // no fill-in path has more vertices than the subdomain: the decomposition is exact
+    ILU::blockILUDecomposition(this->ILU, rowSet.size(), RILU);
   }
 
   /** @} */
-- 
2.43.0


From 50358d5a9adf0a48b659cdafb25977001a84a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 66/91] fix: dense subdomain solver works for blocks and
 relaxes every entry once

---
 dune/istl/overlappingschwarz.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 8b52620..f049e03 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -207,7 +207,7 @@ namespace Dune
       }
     }
   private:
-    DynamicMatrix<K> A;
+    DynamicMatrix<field_type> A;
   };
 
   template<typename T, bool tag>
@@ -1324,7 +1324,11 @@ namespace Dune
   OverlappingAssignerHelper< DynamicMatrixSubdomainSolver< BCRSMatrix< K, Al>, X, Y >,false>
   ::relaxResult(field_type relax)
   {
-    lhs() *= relax;
+    // relax the entries of the current index only
+    for(size_type j=i; j<i+n; ++j) {
+      assert(j<maxlength_);
+      lhs()[j] *= relax;
+    }
   }
 
   template<class K, class Al, class X, class Y>
-- 
2.43.0


From 98a70be00256fe0237339d865bf9dd44edce9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 67/91] fix: pairwise Schwarz subdomains cover vertices without
 neighbours

---
 dune/istl/paamg/smoother.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index b4cc589..e01c7c1 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -726,7 +726,8 @@ namespace Dune
         {
           adder.setAggregate(aggregate_);
           aggregate=aggregate_;
-          return ++subdomain;
+          subdomain=aggregate_;
+          return subdomain;
         }
         int noSubdomains() const
         {
@@ -740,7 +741,8 @@ namespace Dune
         const AggregatesMap& aggregates;
         VertexAdder adder;
         const MatrixGraph<const M>& graph;
-        VM& visitedMap;
+        /** @brief Marker for the search within a neighbouring aggregate. */
+        std::vector<bool> visited;
       };
 
       void createPairDomains(const MatrixGraph<const M>& graph)
-- 
2.43.0


From 3cd54074381a8564dcaefdbb6247360b490c0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 68/91] fix: no empty Schwarz subdomains for isolated vertices

---
 dune/istl/paamg/smoother.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index e01c7c1..8c07790 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -754,6 +754,10 @@ namespace Dune
         std::set<std::pair<size_type,size_type> > pairs;
         int total=0;
         for(VIter v=graph.begin(), ve=graph.end(); ve != v; ++v)
+        {
+          if(v.begin()==v.end())
+            // no neighbours: the vertex forms a subdomain on its own
+            pairs.insert(std::make_pair(*v,*v));
           for(EIter e = v.begin(), ee=v.end(); ee!=e; ++e)
           {
             ++total;
@@ -762,7 +766,7 @@ namespace Dune
             else
               pairs.insert(std::make_pair(e.target(),e.source()));
           }
-
+        }
 
         subdomains.resize(pairs.size());
         Dune::dinfo <<std::endl<< "Created "<<pairs.size()<<" ("<<total<<") pair domains"<<std::endl<<std::endl;
@@ -797,15 +801,16 @@ namespace Dune
         // for the isolated ones. All isolated vertices form
         // one aggregate, here.
         int isolated=0;
-        AggregateDescriptor maxAggregate=0;
+        AggregateDescriptor noAggregates=0;
 
         for(std::size_t i=0; i < amap.noVertices(); ++i)
           if(amap[i]==AggregatesMap::ISOLATED)
             isolated++;
           else
-            maxAggregate = std::max(maxAggregate, amap[i]);
+            noAggregates = std::max(noAggregates, amap[i]+1);
 
-        subdomains.resize(maxAggregate+1+isolated);
+        // the subdomains of isolated vertices are appended below
+        subdomains.resize(noAggregates);
 
         // reset the subdomains
         for(typename Vector::size_type i=0; i < subdomains.size(); ++i)
-- 
2.43.0


From c049d1e7d5802433b3e2123f83124e72565c61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 69/91] fix: Schwarz subdomains with aggregate overlap contain
 the neighbouring aggregates

---
 dune/istl/paamg/smoother.hh | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 8c07790..a5d83fe 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -591,7 +591,7 @@ namespace Dune
         break;
         case SmootherArgs::aggregate :
         {
-          AggregateAdder<VisitedMapType> visitor(subdomains, amap, graph, visitedMap);
+          AggregateAdder visitor(subdomains, amap, graph);
           createSubdomains(matrix, graph, amap, visitor, visitedMap);
         }
         break;
@@ -698,13 +698,12 @@ namespace Dune
         }
       };
 
-      template<class VM>
       struct AggregateAdder
       {
         AggregateAdder(Vector& subdomains_, const AggregatesMap& aggregates_,
-                       const MatrixGraph<const M>& graph_, VM& visitedMap_)
+                       const MatrixGraph<const M>& graph_)
           : subdomains(subdomains_), subdomain(-1), aggregates(aggregates_),
-            adder(subdomains_, aggregates_), graph(graph_), visitedMap(visitedMap_)
+            adder(subdomains_, aggregates_), graph(graph_), visited(aggregates_.noVertices(), false)
         {}
         template<class T>
         void operator()(const T& edge)
@@ -712,12 +711,14 @@ namespace Dune
           subdomains[subdomain].insert(edge.target());
           // If we (the neighbouring vertex of the aggregate)
           // are not isolated, add the aggregate we belong to
-          // to the same subdomain using the OneOverlapAdder
+          // to the same subdomain using the VertexAdder
           if(aggregates[edge.target()]!=AggregatesMap::ISOLATED) {
             assert(aggregates[edge.target()]!=aggregate);
             typename AggregatesMap::VertexList vlist;
-            aggregates.template breadthFirstSearch<true,false>(edge.target(), aggregate,
-                                                               graph, vlist, adder, adder,
+            typename AggregatesMap::DummyEdgeVisitor dummy;
+            IteratorPropertyMap<std::vector<bool>::iterator,IdentityMap> visitedMap(visited.begin());
+            aggregates.template breadthFirstSearch<false,true>(edge.target(), aggregates[edge.target()],
+                                                               graph, vlist, adder, dummy,
                                                                visitedMap);
           }
         }
-- 
2.43.0


From 9b7ea1ec543749d3f05a44ff688360302a00268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 70/91] fix: preconditioner passed to the solver factory does
 not outlive the solver creation

---
 dune/istl/solverfactory.hh | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dune/istl/solverfactory.hh b/dune/istl/solverfactory.hh
index ba368ec..403a5fb 100644
--- a/dune/istl/solverfactory.hh
+++ b/dune/istl/solverfactory.hh
@@ -152,12 +152,23 @@ namespace Dune{
                        std::shared_ptr<Preconditioner<typename Operator::domain_type, typename Operator::range_type>> prec = nullptr)
   {
     if(prec){
-      PreconditionerFactory<Operator>::instance().define("__passed at runtime__",
-                                                         [=](auto...){
-                                                           return prec;
-                                                         });
+      const std::string key = "__passed at runtime__";
+      auto& precFactory = PreconditionerFactory<Operator>::instance();
+      // the passed preconditioner is only available (and only kept alive by
+      // the factory) while this solver is created
+      struct Release {
+        std::decay_t<decltype(precFactory)>& factory;
+        const std::string& key;
+        ~Release()
+        {
+          factory.define(key, [](auto...) -> decltype(prec) {
+            DUNE_THROW(InvalidStateException, "No preconditioner was passed at runtime");
+          });
+        }
+      } release{precFactory, key};
+      precFactory.define(key, [=](auto...){ return prec; });
       ParameterTree config_tmp = config;
-      config_tmp.sub("preconditioner")["type"] = std::string("__passed at runtime__");
+      config_tmp.sub("preconditioner")["type"] = key;
       return SolverFactory<Operator>::instance().
         create(config.get<std::string>("type"),op, config_tmp);
     }
-- 
2.43.0


From 046e7d2c7da25940c37c6e304250c9d83302083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 71/91] fix: AMG parameter accumulationMode=successive sets the
 accumulation mode

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 5cbde54..df19f58 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -554,7 +554,7 @@ namespace Dune
         else if ( mode == "atonce" )
           criterion.setAccumulate(AccumulationMode::atOnceAccu);
         else if ( mode == "successive")
-          criterion.setCoarsenTarget (AccumulationMode::successiveAccu);
+          criterion.setAccumulate(AccumulationMode::successiveAccu);
         else
           DUNE_THROW(InvalidSolverFactoryConfiguration, "Parameter accumulationMode does not allow value "
                      << mode <<".");
-- 
2.43.0


From 012bb4cdff639d3a94a7cfe81b8c960e7bbf664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 72/91] fix: AMG default aggregation sizes use the configured
 maxAggregateDistance

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index df19f58..3b40620 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -568,7 +568,7 @@ namespace Dune
         auto mode = ToLower()(configuration.get<std::string>("defaultAggregationSizeMode"));
         auto dim = configuration.get<std::size_t>("defaultAggregationDimension");
         std::size_t maxDistance = 2;
-        if (configuration.hasKey("MaxAggregateDistance"))
+        if (configuration.hasKey("maxAggregateDistance"))
           maxDistance = configuration.get<std::size_t>("maxAggregateDistance");
         if (mode == "isotropic")
           criterion.setDefaultValuesIsotropic(dim, maxDistance);
-- 
2.43.0


From 4ee9a558ed4a1dc2c787dab733a340ebc044fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 73/91] fix: AMG parameter minCoarseningRate is a real number

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 3b40620..bc5f98a 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -541,7 +541,7 @@ namespace Dune
         criterion.setMaxLevel(configuration.get<int>("maxLevel"));
 
       if (configuration.hasKey ("minCoarseningRate"))
-        criterion.setMinCoarsenRate(configuration.get<int>("minCoarseningRate"));
+        criterion.setMinCoarsenRate(configuration.get<double>("minCoarseningRate"));
 
       if (configuration.hasKey ("coarsenTarget"))
         criterion.setCoarsenTarget (configuration.get<int>("coarsenTarget"));
-- 
2.43.0


From dc5ea7ccfed198a73d91f40e276dc8fdd9c08a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 74/91] fix: AMG configured by a parameter tree checks the
 solver category

---
 dune/istl/paamg/amg.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index bc5f98a..c931eae 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -457,6 +457,8 @@ namespace Dune
       coarsesolverconverged(true), coarseSmoother_(),
       category_(SolverCategory::category(pinfo))
     {
+      if(SolverCategory::category(*matrixptr) != SolverCategory::category(pinfo))
+        DUNE_THROW(InvalidSolverCategory, "Matrix and Communication must have the same SolverCategory!");
 
       if (configuration.hasKey ("smootherIterations"))
         smootherArgs_.iterations = configuration.get<int>("smootherIterations");
-- 
2.43.0


From d6d4b9f2c0b4b480e9ec5aa3df57f91257cd8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 75/91] fix: AMG parameter diagonalRowIndex has to be a row of
 the matrix blocks

---
 dune/istl/paamg/amg.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index c931eae..4748d8a 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -475,6 +475,12 @@ namespace Dune
         using real_type = typename FieldTraits<field_type>::real_type;
         std::is_convertible<field_type, real_type> compiles;
 
+        // the index has to denote a row of the matrix blocks
+        using Block = typename M::matrix_type::block_type;
+        if constexpr (not IsNumber<Block>::value)
+          if (index >= int(Block::rows))
+            DUNE_THROW(InvalidStateException, "diagonalRowIndex " << index << " exceeds the size of the matrix blocks.");
+
         switch (index)
         {
         case 0:
-- 
2.43.0


From 9eb2dde431055ad2a94c2c4009fea18fd1932410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 76/91] fix: additive AMG with redistributed levels or a single
 level accessed missing data

---
 dune/istl/paamg/amg.hh | 123 +++++++++++++++++++++++++----------------
 1 file changed, 74 insertions(+), 49 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 4748d8a..6a7d55b 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -319,7 +319,13 @@ namespace Dune
        */
       void mgc(LevelContext& levelContext);
 
-      void additiveMgc();
+      /**
+       * @brief Additive multigrid cycle on a level.
+       *
+       * The correction is stored in the update of the level.
+       * @param levelContext the iterators of the current level.
+       */
+      void additiveMgc(LevelContext& levelContext);
 
       /**
        * @brief Move the iterators to the finer level
@@ -327,7 +333,21 @@ namespace Dune
        * @param processedFineLevel Whether the process computed on
        *         fine level or not.
        */
-      void moveToFineLevel(LevelContext& levelContext,bool processedFineLevel);
+      void moveToFineLevel(LevelContext& levelContext,bool processedFineLevel)
+      {
+        moveToFineLevel(levelContext, processedFineLevel,
+                        matrices_->getProlongationDampingFactor());
+      }
+
+      /**
+       * @brief Move the iterators to the finer level
+       * @param levelContext the iterators of the current level.
+       * @param processedFineLevel Whether the process computed on
+       *         fine level or not.
+       * @param damping The factor the prolongated correction is scaled with.
+       */
+      void moveToFineLevel(LevelContext& levelContext,bool processedFineLevel,
+                           double damping);
 
       /**
        * @brief Move the iterators to the coarser level.
@@ -898,9 +918,15 @@ namespace Dune
       LevelContext levelContext;
 
       if(additive) {
-        *(rhs_->finest())=d;
-        additiveMgc();
-        v=*lhs_->finest();
+        initIteratorsWithFineLevel(levelContext);
+
+        *levelContext.rhs = d;
+        levelContext.level=0;
+        coarsesolverconverged = true;
+
+        additiveMgc(levelContext);
+
+        v=*levelContext.update;
       }else{
         // Init all iterators for the current level
         initIteratorsWithFineLevel(levelContext);
@@ -986,7 +1012,8 @@ namespace Dune
 
     template<class M, class X, class S, class PI, class A>
     void AMG<M,X,S,PI,A>
-    ::moveToFineLevel(LevelContext& levelContext, bool processNextLevel)
+    ::moveToFineLevel(LevelContext& levelContext, bool processNextLevel,
+                      double damping)
     {
       if(processNextLevel) {
         if(levelContext.matrix != matrices_->matrices().coarsest() || matrices_->levels()<matrices_->maxlevels()) {
@@ -1009,13 +1036,13 @@ namespace Dune
         Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
         ::prolongateVector(*(*levelContext.aggregates), *levelContext.update, *levelContext.lhs,
                            levelContext.lhs.getRedistributed(),
-                           matrices_->getProlongationDampingFactor(),
+                           damping,
                            *levelContext.pinfo, *levelContext.redist);
       }else{
         *levelContext.lhs=0;
         Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
         ::prolongateVector(*(*levelContext.aggregates), *levelContext.update, *levelContext.lhs,
-                           matrices_->getProlongationDampingFactor(),
+                           damping,
                            *levelContext.pinfo);
       }
 
@@ -1095,51 +1122,49 @@ namespace Dune
     }
 
     template<class M, class X, class S, class PI, class A>
-    void AMG<M,X,S,PI,A>::additiveMgc(){
-
-      // restrict residual to all levels
-      typename ParallelInformationHierarchy::Iterator pinfo=matrices_->parallelInformation().finest();
-      typename Hierarchy<Range,A>::Iterator rhs=rhs_->finest();
-      typename Hierarchy<Domain,A>::Iterator lhs = lhs_->finest();
-      typename OperatorHierarchy::AggregatesMapList::const_iterator aggregates=matrices_->aggregatesMaps().begin();
-
-      for(typename Hierarchy<Range,A>::Iterator fineRhs=rhs++; fineRhs != rhs_->coarsest(); fineRhs=rhs++, ++aggregates) {
-        ++pinfo;
-        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
-        ::restrictVector(*(*aggregates), *rhs, static_cast<const Range&>(*fineRhs), *pinfo);
-      }
-
-      // pinfo is invalid, set to coarsest level
-      //pinfo = matrices_->parallelInformation().coarsest
-      // calculate correction for all levels
-      lhs = lhs_->finest();
-      typename Hierarchy<Smoother,A>::Iterator smoother = smoothers_->finest();
-
-      for(rhs=rhs_->finest(); rhs != rhs_->coarsest(); ++lhs, ++rhs, ++smoother) {
-        // presmoothing
-        *lhs=0;
-        smoother->apply(*lhs, *rhs);
-      }
-
-      // Coarse level solve
+    void AMG<M,X,S,PI,A>::additiveMgc(LevelContext& levelContext){
+      if(levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels()) {
 #ifndef DUNE_AMG_NO_COARSEGRIDCORRECTION
-      InverseOperatorResult res;
-      pinfo->copyOwnerToAll(*rhs, *rhs);
-      *lhs=0;
-      solver_->apply(*lhs, *rhs, res);
-
-      if(!res.converged)
-        DUNE_THROW(MathError, "Coarse solver did not converge");
+        // Solve directly
+        *levelContext.update=0;
+        InverseOperatorResult res;
+        res.converged=true; // Some processes might not take part in the coarse solve
+        if(levelContext.redist->isSetup()) {
+          levelContext.redist->redistribute(*levelContext.rhs, levelContext.rhs.getRedistributed());
+          if(levelContext.rhs.getRedistributed().size()>0) {
+            // We are still participating in the computation
+            levelContext.pinfo.getRedistributed().copyOwnerToAll(levelContext.rhs.getRedistributed(),
+                                                    levelContext.rhs.getRedistributed());
+            levelContext.update.getRedistributed()=0;
+            solver_->apply(levelContext.update.getRedistributed(),
+                           levelContext.rhs.getRedistributed(), res);
+          }
+          levelContext.redist->redistributeBackward(*levelContext.update, levelContext.update.getRedistributed());
+          levelContext.pinfo->copyOwnerToAll(*levelContext.update, *levelContext.update);
+        }else{
+          levelContext.pinfo->copyOwnerToAll(*levelContext.rhs, *levelContext.rhs);
+          solver_->apply(*levelContext.update, *levelContext.rhs, res);
+        }
+        if(!res.converged)
+          coarsesolverconverged = false;
 #else
-      *lhs=0;
+        *levelContext.update=0;
 #endif
-      // Prologate and add up corrections from all levels
-      --pinfo;
-      --aggregates;
+      }else{
+        // smoothing
+        *levelContext.update=0;
+        levelContext.smoother->apply(*levelContext.update, *levelContext.rhs);
 
-      for(typename Hierarchy<Domain,A>::Iterator coarseLhs = lhs--; coarseLhs != lhs_->finest(); coarseLhs = lhs--, --aggregates, --pinfo) {
-        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
-        ::prolongateVector(*(*aggregates), *coarseLhs, *lhs, 1.0, *pinfo);
+        // add the prolongated correction of the coarser levels
+        bool processNextLevel = moveToCoarseLevel(levelContext);
+        if(processNextLevel)
+          additiveMgc(levelContext);
+        moveToFineLevel(levelContext, processNextLevel, 1.0);
+      }
+      if(levelContext.level == 0) {
+        coarsesolverconverged = matrices_->parallelInformation().finest()->communicator().prod(coarsesolverconverged);
+        if(!coarsesolverconverged)
+          DUNE_THROW(MathError, "Coarse solver did not converge");
       }
     }
 
-- 
2.43.0


From 6ea253178ae4dd547b38367d4e461aedfee8dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:18 +0000
Subject: [PATCH 77/91] fix: applyInverseIteration without shift ignored
 avoidLinSolverCrime

---
 dune/istl/eigenvalue/poweriteration.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index c345dd8..780ada0 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -357,7 +357,8 @@ namespace Dune
                                        BlockVector& x, Real& lambda) const
     {
       constexpr Real gamma = 0.0;
-      applyInverseIteration(gamma,epsilon,solver,x,lambda);
+      this->template applyInverseIteration<ISTLLinearSolver,avoidLinSolverCrime>
+        (gamma,epsilon,solver,x,lambda);
     }
 
     /**
-- 
2.43.0


From a3402e10160764213eebe9f63478322727c5f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:18 +0000
Subject: [PATCH 78/91] fix: getIterationMatrix created after a shift returned
 the unshifted matrix

---
 dune/istl/eigenvalue/poweriteration.hh | 44 +++++++++++++++++---------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index 780ada0..dd10854 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -947,7 +947,11 @@ namespace Dune
     {
       // create iteration matrix on demand
       if (!itMatrix_)
+      {
         itMatrix_ = std::make_unique<BCRSMatrix>(m_);
+        // the shift might have been changed already
+        updateIterationMatrixDiagonal();
+      }
 
       // return iteration matrix
       return *itMatrix_;
@@ -993,27 +997,37 @@ namespace Dune
       // update iteration matrix when needed
       if (itMatrix_)
       {
-        // iterate over entries in iteration matrix diagonal
-        constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
-        constexpr int colBlockSize = BCRSMatrix::block_type::cols;
-        for (typename BCRSMatrix::size_type i = 0;
-             i < itMatrix_->M()*rowBlockSize; ++i)
-        {
-          // access m_[i,i] where i is the flat index of a row/column
-          const Real& m_entry = m_
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // access *itMatrix[i,i] where i is the flat index of a row/column
-          Real& entry = (*itMatrix_)
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // change current entry in iteration matrix diagonal
-          entry = m_entry - mu_;
-        }
+        updateIterationMatrixDiagonal();
         // notify linear solver about change of the iteration matrix object
         SolverHelper<ISTLLinearSolver,BCRSMatrix>::setMatrix
           (solver,*itMatrix_);
       }
     }
 
+  protected:
+    /**
+     * \brief Set the diagonal of the iteration matrix (m_ - mu_*I)
+     *        according to the current shift mu_.
+     */
+    inline void updateIterationMatrixDiagonal () const
+    {
+      // iterate over entries in iteration matrix diagonal
+      constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
+      constexpr int colBlockSize = BCRSMatrix::block_type::cols;
+      for (typename BCRSMatrix::size_type i = 0;
+           i < itMatrix_->M()*rowBlockSize; ++i)
+      {
+        // access m_[i,i] where i is the flat index of a row/column
+        const Real& m_entry = m_
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // access *itMatrix[i,i] where i is the flat index of a row/column
+        Real& entry = (*itMatrix_)
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // change current entry in iteration matrix diagonal
+        entry = m_entry - mu_;
+      }
+    }
+
   protected:
     // parameters related to iterative eigenvalue algorithms
     const BCRSMatrix& m_;
-- 
2.43.0


From b545f4a568968448e92267add156d7720f25c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:18 +0000
Subject: [PATCH 79/91] fix: eigenvalue iterations reported convergence with
 NaN

---
 dune/istl/eigenvalue/poweriteration.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index dd10854..7bd484e 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -275,7 +275,7 @@ namespace Dune
       m_.mv(x,y);
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon)) // also true if r_norm is NaN
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -426,7 +426,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon)) // also true if r_norm is NaN
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -554,7 +554,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon)) // also true if r_norm is NaN
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -727,7 +727,7 @@ namespace Dune
       doRQI = false;
       r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon)) // also true if r_norm is NaN
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
-- 
2.43.0


From 6f2e67a8d6c96d32575d1f9ae04aaaf11f921faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:27 +0000
Subject: [PATCH 80/91] fix: reduction was NaN when one of several right-hand
 sides had no initial defect

---
 dune/istl/solver.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 9135e8b..4dde3c8 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -487,7 +487,8 @@ namespace Dune
     protected:
       void finalize(){
         _res.iterations = _i;
-        _res.reduction = static_cast<double>(Simd::max(_def/_def0));
+        // lanes without initial defect do not need any reduction
+        _res.reduction = static_cast<double>(Simd::max(Simd::cond(_def0==real_type(0.), real_type(0.), _def/_def0)));
         _res.conv_rate  = pow(_res.reduction,1.0/_i);
         _res.elapsed = _watch.elapsed();
         if (_parent._verbose>0)                 // final print
-- 
2.43.0


From 566a3e1baf4bec4fc4f87c395d78b609de6f66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:27 +0000
Subject: [PATCH 81/91] fix: MINRES returned NaN for solved lanes while other
 lanes were iterated

---
 dune/istl/solvers.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 11d7b9a..6774400 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -719,10 +719,10 @@ namespace Dune {
         // since it is the norm of the basis vectors (in unpreconditioned case)
         beta = sqrt(_sp->dot(q[i2],z));
 
-        q[i2] *= Simd::cond(def==field_type(0.),
+        q[i2] *= Simd::cond(def==field_type(0.) || beta==field_type(0.),
                             field_type(0.),
                             real_type(1.0)/beta);
-        z *= Simd::cond(def==field_type(0.),
+        z *= Simd::cond(def==field_type(0.) || beta==field_type(0.),
                         field_type(0.),
                         real_type(1.0)/beta);
 
@@ -752,7 +752,9 @@ namespace Dune {
         p[i2] = dummy;
         p[i2].axpy(-T[1],p[i1]);
         p[i2].axpy(-T[0],p[i0]);
-        p[i2] *= real_type(1.0)/T[2];
+        p[i2] *= Simd::cond(def==field_type(0.),
+                            field_type(0.),
+                            real_type(1.0)/T[2]);
 
         // apply correction/update solution
         x.axpy(beta0*xi[(i+1)%2],p[i2]);
-- 
2.43.0


From 329e82b737014b91e7af94ba4b93ae4a2647fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:27 +0000
Subject: [PATCH 82/91] fix: GMRes returned NaN when one of several lanes
 reached an invariant subspace

---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 6774400..ce3771a 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -987,7 +987,7 @@ namespace Dune {
 
           // normalize new vector
           v[i+1] = w;
-          v[i+1] *= Simd::cond(norm==real_type(0.),
+          v[i+1] *= Simd::cond(norm==real_type(0.) || H[i+1][i]==field_type(0.),
                                field_type(0.),
                                real_type(1.0)/H[i+1][i]);
 
-- 
2.43.0


From 1da9da05c85f9ee8da06b1741066815405983203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:27 +0000
Subject: [PATCH 83/91] fix: flexible GMRes divided by the vanishing defect of
 solved lanes

---
 dune/istl/solvers.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index ce3771a..7752b41 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1202,7 +1202,9 @@ namespace Dune {
       res.converged = false;;
       while(j <= _maxit && res.converged != true)
       {
-        v[0] *= (1.0 / norm);
+        v[0] *= Simd::cond(norm==real_type(0.),
+                           real_type(0.),
+                           real_type(1.0)/norm);
         s[0] = norm;
         for(i=1; i<m+1; ++i)
           s[i] = 0.0;
@@ -1234,7 +1236,9 @@ namespace Dune {
                                      << j << " iterations");
 
           // v[i+1] = w*1/H[i+1][i]
-          v[i+1] *= real_type(1.0)/H[i+1][i];
+          v[i+1] *= Simd::cond(norm==real_type(0.) || H[i+1][i]==field_type(0.),
+                               field_type(0.),
+                               real_type(1.0)/H[i+1][i]);
 
           // update QR factorization
           for(k=0; k<i; k++)
-- 
2.43.0


From 835f6cf018cc77595d51d126106ccd1a53441a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:27 +0000
Subject: [PATCH 84/91] fix: GeneralizedPCG divided zero by zero in solved
 lanes

---
 dune/istl/solvers.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 7752b41..2a969b6 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1427,7 +1427,9 @@ private:
       rho = _sp->dot(*(p[0]),b);             // orthogonalization
       _op->apply(*(p[0]),q);                 // q=Ap
       pp[0] = _sp->dot(*(p[0]),q);           // scalar product
-      lambda = rho/pp[0];         // minimization
+      lambda = Simd::cond(def==field_type(0.),
+                          field_type(0.),
+                          rho/pp[0]);         // minimization
       x.axpy(lambda,*(p[0]));               // update solution
       b.axpy(-lambda,q);              // update defect
 
@@ -1453,7 +1455,10 @@ private:
           _op->apply(prec_res, q);
 
           for(int j=0; j<ii; ++j) {
-            rho =_sp->dot(*(p[j]),q)/pp[j];
+            rho =_sp->dot(*(p[j]),q);
+            rho = Simd::cond(rho==field_type(0.),
+                             field_type(0.),
+                             rho/pp[j]);
             p[ii]->axpy(-rho, *(p[j]));
           }
 
@@ -1461,7 +1466,9 @@ private:
           _op->apply(*(p[ii]),q);                     // q=Ap
           pp[ii] = _sp->dot(*(p[ii]),q);               // scalar product
           rho = _sp->dot(*(p[ii]),b);                 // orthogonalization
-          lambda = rho/pp[ii];             // minimization
+          lambda = Simd::cond(rho==field_type(0.),
+                              field_type(0.),
+                              rho/pp[ii]);             // minimization
           x.axpy(lambda,*(p[ii]));                   // update solution
           b.axpy(-lambda,q);                  // update defect
 
-- 
2.43.0


From 917e240d83affc860994010c608aebca2314a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:27 +0000
Subject: [PATCH 85/91] fix: RestartedFCG and CompleteFCG divided zero by zero
 in solved lanes

---
 dune/istl/solvers.hh | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 2a969b6..5c4faf6 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1636,7 +1636,10 @@ private:
           //saving interim values for future calculating
           _op->apply(d[i_bounded], Ad[i_bounded]);                    // save Ad[i]
           ddotAd[i_bounded]=_sp->dot(d[i_bounded],Ad[i_bounded]);    // save <d[i],Ad[i]>
-          alpha = _sp->dot(d[i_bounded], b)/ddotAd[i_bounded];      // <d[i],b>/<d[i],Ad[i]>
+          alpha = _sp->dot(d[i_bounded], b);
+          alpha = Simd::cond(alpha==field_type(0.),
+                             field_type(0.),
+                             alpha/ddotAd[i_bounded]);      // <d[i],b>/<d[i],Ad[i]>
 
           //update solution and defect
           x.axpy(alpha, d[i_bounded]);
@@ -1664,7 +1667,10 @@ private:
     virtual void orthogonalizations(const int& i_bounded,const std::vector<X>& Ad, const X& w, const std::vector<field_type,ReboundAllocatorType<X,field_type>>& ddotAd,std::vector<X>& d) {
       // The RestartedFCGSolver uses only values with lower array index;
       for (int k = 0; k < i_bounded; k++) {
-        d[i_bounded].axpy(-_sp->dot(Ad[k], w) / ddotAd[k], d[k]); // d[i] -= <<Ad[k],w>/<d[k],Ad[k]>>d[k]
+        const field_type Adw = _sp->dot(Ad[k], w);
+        d[i_bounded].axpy(Simd::cond(Adw==field_type(0.),
+                                     field_type(0.),
+                                     -Adw / ddotAd[k]), d[k]); // d[i] -= <<Ad[k],w>/<d[k],Ad[k]>>d[k]
       }
     }
 
@@ -1722,8 +1728,12 @@ private:
     void orthogonalizations(const int& i_bounded,const std::vector<X>& Ad, const X& w, const std::vector<field_type,ReboundAllocatorType<X,field_type>>& ddotAd,std::vector<X>& d) override {
       // This FCGSolver uses values with higher array indexes too, if existent.
       for (int k = 0; k < _k_limit; k++) {
-        if(i_bounded!=k)
-          d[i_bounded].axpy(-_sp->dot(Ad[k], w) / ddotAd[k], d[k]); // d[i] -= <<Ad[k],w>/<d[k],Ad[k]>>d[k]
+        if(i_bounded!=k) {
+          const field_type Adw = _sp->dot(Ad[k], w);
+          d[i_bounded].axpy(Simd::cond(Adw==field_type(0.),
+                                       field_type(0.),
+                                       -Adw / ddotAd[k]), d[k]); // d[i] -= <<Ad[k],w>/<d[k],Ad[k]>>d[k]
+        }
       }
       // The loop limit increase, if array is not completely filled.
       if(_k_limit<=i_bounded)
-- 
2.43.0


From f4531e646fc2837b1de4c15376f8b291f6b562a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:01 +0000
Subject: [PATCH 86/91] fix: a file without a correct Matrix Market banner was
 read with what the broken banner announced so far instead of the announced
 default

---
 dune/istl/matrixmarket.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index e71e5a3..a8bc717 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -890,6 +890,8 @@ namespace Dune
     if(!readMatrixMarketBanner(istr, header)) {
       std::cerr << "First line was not a correct Matrix Market banner. Using default:\n"
                 << "%%MatrixMarket matrix coordinate real general"<<std::endl;
+      // Forget what was read of an incorrect banner
+      header=MMHeader();
       // Go to the beginning of the file
       istr.clear() ;
       istr.seekg(0, std::ios::beg);
@@ -1027,6 +1029,8 @@ namespace Dune
     if(!readMatrixMarketBanner(istr, header)) {
       std::cerr << "First line was not a correct Matrix Market banner. Using default:\n"
                 << "%%MatrixMarket matrix coordinate real general"<<std::endl;
+      // Forget what was read of an incorrect banner
+      header=MMHeader();
       // Go to the beginning of the file
       istr.clear() ;
       istr.seekg(0, std::ios::beg);
-- 
2.43.0


From 84e5a927732a95eaadafdcfd92cfdc4325de45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:27 +0000
Subject: [PATCH 87/91] fix: BCRSMatrix::compress with average zero reports
 exhausted memory instead of writing through a null pointer

---
 dune/istl/bcrsmatrix.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index b49cb79..0d2d07b 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1402,6 +1402,13 @@ namespace Dune {
       if (ready!=building)
         DUNE_THROW(InvalidStateException,"You may only call compress() at the end of the 'building' stage");
 
+      //without any memory (average zero) there is no place for entries of the overflow area
+      if (allocationSize_ == 0 && !overflow.empty())
+        DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
+                   "Allocated memory for BCRSMatrix exhausted during compress()!"
+                   "Please increase either the average number of entries per row or the compressionBufferSize value."
+                   );
+
       //calculate statistics
       CompressionStatistics stats;
       stats.overflow_total = overflow.size();
-- 
2.43.0


From c23543dd55864d83554f9140cd992a52225f82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:27 +0000
Subject: [PATCH 88/91] fix: AMG::post finishes the smoother of a process with
 one level only once

---
 dune/istl/paamg/amg.hh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 6a7d55b..e70e1f8 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1180,11 +1180,8 @@ namespace Dune
       Iterator smoother = smoothers_->finest();
       DIterator lhs = lhs_->finest();
       if(smoothers_->levels()>0) {
-        if(smoother != coarsest  || matrices_->levels()<matrices_->maxlevels())
+        for(; smoother != coarsest; ++smoother, ++lhs)
           smoother->post(*lhs);
-        if(smoother!=coarsest)
-          for(++smoother, ++lhs; smoother != coarsest; ++smoother, ++lhs)
-            smoother->post(*lhs);
         smoother->post(*lhs);
       }
       lhs_ = nullptr;
-- 
2.43.0


From ddd390c9f216884dcf016120d6b92b3b535f9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:28 +0000
Subject: [PATCH 89/91] fix: TwoLevelMethod::post finishes the smoother
 prepared by pre

---
 dune/istl/paamg/twolevelmethod.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 512e6f5..89ce175 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -433,8 +433,10 @@ public:
     smoother_->pre(x,b);
   }
 
-  void post([[maybe_unused]] FineDomainType& x) override
-  {}
+  void post(FineDomainType& x) override
+  {
+    smoother_->post(x);
+  }
 
   void apply(FineDomainType& v, const FineRangeType& d) override
   {
-- 
2.43.0


From be9689b2fc20af2749b344941767a0f02e053c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:28 +0000
Subject: [PATCH 90/91] fix: Hierarchy::addFiner did not compile

---
 dune/istl/paamg/hierarchy.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/hierarchy.hh b/dune/istl/paamg/hierarchy.hh
index e3f8d82..e91be9d 100644
--- a/dune/istl/paamg/hierarchy.hh
+++ b/dune/istl/paamg/hierarchy.hh
@@ -366,13 +366,13 @@ namespace Dune
         // allocate into the shared_ptr
         originalFinest_ = ConstructionTraits<MemberType>::construct(args);
         finest_ = std::allocate_shared<Element>(allocator_);
-        finest_->element = originalFinest_;
+        finest_->element_ = originalFinest_;
         coarsest_ = finest_;
       }else{
         finest_->finer_ = std::allocate_shared<Element>(allocator_);
         finest_->finer_->coarser_ = finest_;
         finest_ = finest_->finer_;
-        finest_->element = ConstructionTraits<T>::construct(args);
+        finest_->element_ = ConstructionTraits<MemberType>::construct(args);
       }
       ++levels_;
     }
-- 
2.43.0


From 952ed8204a5e78cb9b06c6e75713c6dd23603434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:28 +0000
Subject: [PATCH 91/91] fix: BCRSMatrix assignment gave the rows back to the
 allocator a second time

---
 dune/istl/bcrsmatrix.hh | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 0d2d07b..11b3d93 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -917,14 +917,6 @@ namespace Dune {
       // and deallocate rows only if n != Mat.n
       deallocate(n!=Mat.n);
 
-      // reallocate the rows if required
-      if (n>0 && n!=Mat.n) {
-        // free rows
-        for(row_type *riter=r+(n-1), *rend=r-1; riter!=rend; --riter)
-          std::allocator_traits<decltype(rowAllocator_)>::destroy(rowAllocator_, riter);
-        rowAllocator_.deallocate(r,n);
-      }
-
       nnz_ = Mat.nonzeroes();
 
       // allocate a, share j_
-- 
2.43.0

