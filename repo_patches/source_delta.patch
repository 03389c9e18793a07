From 97deca66f02f9e649851e84dd87a8bad81ec4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 01/14] fix: make the opts::pfc option compile (frac with
 scalar indices)

---
 libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp b/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
index b5f15ed..2ba9585 100644
--- a/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
+++ b/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
@@ -67,7 +67,7 @@ namespace libmpdataxx
       )
       {
         return return_helper<ix_t>(
-          where(den != 0, nom / den, 0) // note: apparently >0 would suffice
+          where<ix_t>(den != 0, nom / den, typename real_t_helper<ix_t, nom_t>::type(0)) // note: apparently >0 would suffice
         );
       }
 
-- 
2.43.0


From 8d9c4ca975d84d3e6f8fcd8ee9efa0c210196e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 02/14] fix: mirror counter of the rigid boundary's right-side
 antidiffusive halo fill

---
 libmpdata++/bcond/rigid_2d.hpp | 2 +-
 libmpdata++/bcond/rigid_3d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/bcond/rigid_2d.hpp b/libmpdata++/bcond/rigid_2d.hpp
index ecfadb9..ac296c7 100644
--- a/libmpdata++/bcond/rigid_2d.hpp
+++ b/libmpdata++/bcond/rigid_2d.hpp
@@ -155,7 +155,7 @@ namespace libmpdataxx
       {
         using namespace idxperm;
         // zero velocity condition
-        for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0), n = 1; i <= this->rght_halo_vctr.last(); ++i, ++n)
+        for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0), n = 1 + (ad ? 1 : 0); i <= this->rght_halo_vctr.last(); ++i, ++n)
         {
           av[d](pi<d>(i, j)) = -av[d](pi<d>(this->rght_edge_sclr - n + h, j));
         }
diff --git a/libmpdata++/bcond/rigid_3d.hpp b/libmpdata++/bcond/rigid_3d.hpp
index 1a7c477..fabea1b 100644
--- a/libmpdata++/bcond/rigid_3d.hpp
+++ b/libmpdata++/bcond/rigid_3d.hpp
@@ -157,7 +157,7 @@ namespace libmpdataxx
       {
         using namespace idxperm;
         // zero velocity condition
-        for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0), n = 1; i <= this->rght_halo_vctr.last(); ++i, ++n)
+        for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0), n = 1 + (ad ? 1 : 0); i <= this->rght_halo_vctr.last(); ++i, ++n)
         {
           av[d](pi<d>(i, j, k)) = -av[d](pi<d>(this->rght_edge_sclr - n + h, j, k));
         }
-- 
2.43.0


From 3f18322e06b18bebce168923d6ee8c04586a3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 03/14] fix: open_2d fills the second pressure halo point in
 fill_halos_pres

---
 libmpdata++/bcond/open_2d.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libmpdata++/bcond/open_2d.hpp b/libmpdata++/bcond/open_2d.hpp
index 8b16544..7eec0d2 100644
--- a/libmpdata++/bcond/open_2d.hpp
+++ b/libmpdata++/bcond/open_2d.hpp
@@ -47,6 +47,11 @@ namespace libmpdataxx
         // equivalent to one-sided derivatives at the boundary
         a(pi<d>(this->left_halo_sclr.last(), j)) = 2 * a(pi<d>(this->left_edge_sclr,     j))
                                                      - a(pi<d>(this->left_edge_sclr + 1, j));
+        if (halo > 1)
+        {
+          a(pi<d>(this->left_halo_sclr.last() - 1, j)) =   3 * a(pi<d>(this->left_edge_sclr,     j))
+                                                         - 2 * a(pi<d>(this->left_edge_sclr + 1, j));
+        }
       }
 
       void save_edge_vel(const arr_t &a, const rng_t &j)
@@ -63,12 +68,6 @@ namespace libmpdataxx
       {
         using namespace idxperm;
         a(pi<d>(this->left_edge_sclr, j)) = sign * edge_velocity(pi<d>(0, j));
-
-        if (halo > 1)
-        {
-          a(pi<d>(this->left_halo_sclr.last() - 1, j)) =   3 * a(pi<d>(this->left_edge_sclr,     j))
-                                                         - 2 * a(pi<d>(this->left_edge_sclr + 1, j));
-        }
       }
 
       void fill_halos_vctr_alng(arrvec_t<arr_t> &av, const rng_t &j, const bool ad = false)
-- 
2.43.0


From 5c6139870826153527b7c9426549fa32bfd8affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 04/14] fix: off-by-one source index in the right-side polar
 fill_halos_vctr_nrml

---
 libmpdata++/bcond/polar_2d.hpp | 2 +-
 libmpdata++/bcond/polar_3d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/bcond/polar_2d.hpp b/libmpdata++/bcond/polar_2d.hpp
index 0d87112..9b96cce 100644
--- a/libmpdata++/bcond/polar_2d.hpp
+++ b/libmpdata++/bcond/polar_2d.hpp
@@ -136,7 +136,7 @@ namespace libmpdataxx
             a(pi<d>(this->rght_halo_sclr.first() + i,
                     jj + h))
             =
-            a(pi<d>(this->rght_intr_vctr.last() - i,
+            a(pi<d>(this->rght_edge_sclr - i,
                     this->polar_neighbours(jj) + h));
 
           }
diff --git a/libmpdata++/bcond/polar_3d.hpp b/libmpdata++/bcond/polar_3d.hpp
index 96b1ae4..e4f7f0b 100644
--- a/libmpdata++/bcond/polar_3d.hpp
+++ b/libmpdata++/bcond/polar_3d.hpp
@@ -127,7 +127,7 @@ namespace libmpdataxx
           {
             a(pi<d>(this->rght_halo_sclr.first() + i, jj + h, k))
             =
-            a(pi<d>(this->rght_intr_vctr.last() - i, this->polar_neighbours(jj) + h, k));
+            a(pi<d>(this->rght_edge_sclr - i, this->polar_neighbours(jj) + h, k));
           }
         }
       }
-- 
2.43.0


From 3ed811c7bde833aa0ddad32dd1b39f12405fdc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 05/14] fix: open_1d right boundary copies the outermost face
 to every halo face

---
 libmpdata++/bcond/open_1d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/bcond/open_1d.hpp b/libmpdata++/bcond/open_1d.hpp
index ceea477..51ab84c 100644
--- a/libmpdata++/bcond/open_1d.hpp
+++ b/libmpdata++/bcond/open_1d.hpp
@@ -73,7 +73,7 @@ namespace libmpdataxx
       void fill_halos_vctr_alng(arrvec_t<arr_t> &av, const bool ad = false)
       {
         for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0); i <= this->rght_halo_vctr.last(); ++i)
-          av[0](rng_t(i, i)) = av[0](this->rght_intr_vctr.first());
+          av[0](rng_t(i, i)) = av[0](this->rght_intr_vctr.last());
       }
     };
   } // namespace bcond
-- 
2.43.0


From bba5400ac645661cb6cadde66c21964ee90ee446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 06/14] fix: 2-D div_3rd_dt ignores the temporal extrapolation
 of the second time derivative

---
 libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp b/libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp
index 3c24215..303c3b2 100644
--- a/libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp
+++ b/libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp
@@ -231,7 +231,7 @@ namespace libmpdataxx
           + fconst<arr_2d_t>(1.0 / 24) *
           (
               + 8 * GC[dim](pi<dim>(i+h, j)) *  nfdiv_dt<opts, dim>(psi_np1, psi_n, GC, G, i, j)
-              + 1 * ndtt_GC0<opts, dim>(psi_np1, ndtt_GC[dim], i, j)
+              + div_3rd_temporal<opts, dim, tmprl_extrp>(psi_np1, ndtt_GC, i, j)
               + 2 * GC[dim](pi<dim>(i+h, j)) *  nfdiv<opts, dim>(psi_np1, ndt_GC, G, i, j)
               + 2 * ndt_GC[dim](pi<dim>(i+h, j)) * ndt_psi<opts, dim>(psi_np1, psi_n, i, j)
           )
-- 
2.43.0


From 547b2a03865e063f4650d6b3e1fb2824f56cd23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 07/14] fix: 1-D Courant number and divergence ignored the
 density factor

---
 libmpdata++/solvers/detail/solver_1d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/solvers/detail/solver_1d.hpp b/libmpdata++/solvers/detail/solver_1d.hpp
index 4b86d5f..496dd1b 100644
--- a/libmpdata++/solvers/detail/solver_1d.hpp
+++ b/libmpdata++/solvers/detail/solver_1d.hpp
@@ -104,13 +104,13 @@ namespace libmpdataxx
 
         real_t courant_number(const arrvec_t<typename parent_t::arr_t> &arrvec) final
         {
-          stat_field(this->ijk) = real_t(0.5) * (abs(arrvec[0](i+h) + arrvec[0](i-h)));
+          stat_field(this->ijk) = real_t(0.5) * (abs(arrvec[0](i+h) + arrvec[0](i-h))) / formulae::G<ct_params_t::opts>(*this->mem->G, i);
           return this->mem->max(this->rank, stat_field(this->ijk));
         }
 
         real_t max_abs_vctr_div(const arrvec_t<typename parent_t::arr_t> &arrvec) final
         {
-          stat_field(this->ijk) = abs((arrvec[0](i+h) - arrvec[0](i-h)));
+          stat_field(this->ijk) = abs((arrvec[0](i+h) - arrvec[0](i-h))) / formulae::G<ct_params_t::opts>(*this->mem->G, i);
           return this->mem->max(this->rank, stat_field(this->ijk));
         }
 
-- 
2.43.0


From aaacd98a9986c96791701a353485b40bac9e99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 08/14] fix: FCT threads limited fluxes which another thread
 was still storing

---
 libmpdata++/solvers/detail/mpdata_fct_2d.hpp | 2 +-
 libmpdata++/solvers/detail/mpdata_fct_3d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_fct_2d.hpp b/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
index fb4b61a..ecb6ca8 100644
--- a/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
@@ -51,7 +51,7 @@ namespace libmpdataxx
           auto &GC_corr = parent_t::GC_corr(iter);
           const auto &G = *this->mem->G;
           const auto i1 = this->i^1, j1 = this->j^1;
-          const auto im1 = this->im^1, jm1 = this->jm^1;
+          const auto im1 = rng_t(i1.first() - 1, i1.last()), jm1 = rng_t(j1.first() - 1, j1.last()); // all fluxes that enter the betas below
           const auto &im(this->im), &jm(this->jm); // calculating once for (i/j)-1/2 and (i/j)+1/2
 
           // fill halos of GC_corr -> mpdata works with halo=1, we need halo=2
diff --git a/libmpdata++/solvers/detail/mpdata_fct_3d.hpp b/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
index 180e927..e5a0240 100644
--- a/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
@@ -65,7 +65,7 @@ namespace libmpdataxx
           const auto
             i = this->i, j = this->j, k = this->k,
             i1 = i^1, j1 = j^1, k1 = k^1,
-            im1 = this->im^1, jm1 = this->jm^1, km1 = this->km^1;
+            im1 = rng_t(i1.first() - 1, i1.last()), jm1 = rng_t(j1.first() - 1, j1.last()), km1 = rng_t(k1.first() - 1, k1.last()); // all fluxes that enter the betas below
 
           // fill halos -> mpdata works with halo=1, we need halo=2
           this->xchng_vctr_alng(GC_corr, true);
-- 
2.43.0


From 8abe9c5325eb2e7858505fba77a066c09923773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 09/14] fix: 3-D thread count and its check used the x extent
 while threads split y

---
 libmpdata++/concurr/boost_thread.hpp     | 4 ++--
 libmpdata++/concurr/cxx11_thread.hpp     | 4 ++--
 libmpdata++/concurr/detail/sharedmem.hpp | 2 +-
 libmpdata++/concurr/openmp.hpp           | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmpdata++/concurr/boost_thread.hpp b/libmpdata++/concurr/boost_thread.hpp
index f1d7c7a..984984b 100644
--- a/libmpdata++/concurr/boost_thread.hpp
+++ b/libmpdata++/concurr/boost_thread.hpp
@@ -52,8 +52,8 @@ namespace libmpdataxx
 
         // ctor
         mem_t(const std::array<int, solver_t::n_dims> &grid_size) :
-          b(size(grid_size[0])),
-          parent_t::mem_t(grid_size, size(grid_size[0]))
+          b(size(grid_size[solver_t::n_dims < 3 ? 0 : 1])),
+          parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1]))
         {};
 
         void barrier()
diff --git a/libmpdata++/concurr/cxx11_thread.hpp b/libmpdata++/concurr/cxx11_thread.hpp
index 77dc47d..340f2ef 100644
--- a/libmpdata++/concurr/cxx11_thread.hpp
+++ b/libmpdata++/concurr/cxx11_thread.hpp
@@ -93,8 +93,8 @@ namespace libmpdataxx
 
         // ctor
         mem_t(const std::array<int, solver_t::n_dims> &grid_size) :
-          b(size(grid_size[0])),
-          parent_t::mem_t(grid_size, size(grid_size[0]))
+          b(size(grid_size[solver_t::n_dims < 3 ? 0 : 1])),
+          parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1]))
         {};
 
         void barrier()
diff --git a/libmpdata++/concurr/detail/sharedmem.hpp b/libmpdata++/concurr/detail/sharedmem.hpp
index b73fce5..ce0cba2 100644
--- a/libmpdata++/concurr/detail/sharedmem.hpp
+++ b/libmpdata++/concurr/detail/sharedmem.hpp
@@ -103,7 +103,7 @@ namespace libmpdataxx
             origin[d] = this->grid_size[d].first();
           }
 
-          if (size > grid_size[0])
+          if (size > grid_size[shmem_decomp_dim])
             throw std::runtime_error("libmpdata++: number of subdomains greater than number of gridpoints");
 
           if (n_dims != 1)
diff --git a/libmpdata++/concurr/openmp.hpp b/libmpdata++/concurr/openmp.hpp
index d33cda9..3c78dde 100644
--- a/libmpdata++/concurr/openmp.hpp
+++ b/libmpdata++/concurr/openmp.hpp
@@ -58,7 +58,7 @@ namespace libmpdataxx
         }
 
         // ctors
-        mem_t(const std::array<int, solver_t::n_dims> &grid_size) : parent_t::mem_t(grid_size, size(grid_size[0])) {};
+        mem_t(const std::array<int, solver_t::n_dims> &grid_size) : parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1])) {};
       };
 
       void solve(typename parent_t::advance_arg_t nt)
-- 
2.43.0


From 042e0208dc47c5fb7cbf068dbb019ad3b577acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:46 +0000
Subject: [PATCH 10/14] fix: openmp solvers run with the thread count of the
 solver constructed last

---
 libmpdata++/concurr/openmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/concurr/openmp.hpp b/libmpdata++/concurr/openmp.hpp
index 3c78dde..864d041 100644
--- a/libmpdata++/concurr/openmp.hpp
+++ b/libmpdata++/concurr/openmp.hpp
@@ -64,7 +64,7 @@ namespace libmpdataxx
       void solve(typename parent_t::advance_arg_t nt)
       {
         int i = 0;
-#pragma omp parallel private(i)
+#pragma omp parallel private(i) num_threads(this->algos.size())
         {
 #if defined(_OPENMP)
           i = omp_get_thread_num();
-- 
2.43.0


From d0570b2f9650bbe934319e6c4e7c17f91e0eda91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 11/14] fix: cxx11 barrier stops waiting after 2^32 uses
 (32-bit copy of the generation)

---
 libmpdata++/concurr/cxx11_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/concurr/cxx11_thread.hpp b/libmpdata++/concurr/cxx11_thread.hpp
index 340f2ef..9eb6b23 100644
--- a/libmpdata++/concurr/cxx11_thread.hpp
+++ b/libmpdata++/concurr/cxx11_thread.hpp
@@ -42,7 +42,7 @@ namespace libmpdataxx
         bool wait()
         {
           std::unique_lock<std::mutex> lock(m_mutex);
-          unsigned int gen = m_generation;
+          const std::size_t gen = m_generation;
 
           if (--m_count == 0)
           {
-- 
2.43.0


From ef900a16a5f8abd9d807e07f97c04d7f77b763c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:49 +0000
Subject: [PATCH 12/14] fix: third-order MPDATA with advected momenta: advector
 derivatives computed from momenta instead of velocities

---
 .../solvers/detail/mpdata_rhs_vip_common.hpp       | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp
index 5f382f3..c9d4085 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp
@@ -96,10 +96,8 @@ namespace libmpdataxx
           return ret;
         }
 
-        virtual void fill_stash_helper(const int d) final
+        virtual void fill_stash_helper(const int d, const int save_t_lev) final
         {
-          // for third-order mpdata saving to t_lev == -2 so that it becomes -1 at the next time step
-          int save_t_lev = parent_t::div3_mpdata ? -2 : -1;
           if (ix::vip_den == -1)
             vip_stash(save_t_lev)[d](this->ijk) = vips()[d](this->ijk);
           else if (eps == 0) // this is the default
@@ -125,7 +123,9 @@ namespace libmpdataxx
 
         void fill_stash()
         {
-          for (int d = 0; d < ct_params_t::n_dims; ++d) fill_stash_helper(d);
+          // for third-order mpdata saving to t_lev == -2 so that it becomes -1 at the next time step
+          const int save_t_lev = parent_t::div3_mpdata ? -2 : -1;
+          for (int d = 0; d < ct_params_t::n_dims; ++d) fill_stash_helper(d, save_t_lev);
         }
 
         void extrp(const int d, const int e) // extrapolate velocity field in time to t+1/2
@@ -298,7 +298,8 @@ namespace libmpdataxx
             {
               for (int d = 0; d < parent_t::n_dims; ++d)
               {
-                vip_stash(0)[d](this->ijk) = this->dt * (vips()[d](this->ijk) - vip_stash(-1)[d](this->ijk)) / this->dt_stash[0];
+                fill_stash_helper(d, 0); // current velocity (and not e.g. momentum)
+                vip_stash(0)[d](this->ijk) = this->dt * (vip_stash(0)[d](this->ijk) - vip_stash(-1)[d](this->ijk)) / this->dt_stash[0];
                 this->xchng_pres(this->vip_stash(0)[d], this->ijk, ex);
               }
               interpolate_in_space(this->mem->ndt_GC, vip_stash(0));
@@ -309,8 +310,9 @@ namespace libmpdataxx
             {
               for (int d = 0; d < parent_t::n_dims; ++d)
               {
+                fill_stash_helper(d, 0);
                 vip_stash(0)[d](this->ijk) = this->dt * this->dt * (
-                                                  this->dt_stash[1] * vips()[d](this->ijk)
+                                                  this->dt_stash[1] * vip_stash(0)[d](this->ijk)
                                                 - (this->dt_stash[1] + this->dt_stash[0]) * vip_stash(-1)[d](this->ijk)
                                                 + this->dt_stash[0] * vip_stash(-2)[d](this->ijk)
                                              ) / ( this->dt_stash[0] * this->dt_stash[1]
-- 
2.43.0


From 76bde73fdba04c32996bedbe3025a5afec3eafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 13/14] fix: gcrk pressure solver kept iterating after
 convergence, ending with a residual above the tolerance

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp
index 141fcc4..585f634 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp
@@ -56,7 +56,12 @@ namespace libmpdataxx
               std::abs(this->mem->min(this->rank, this->err(this->ijk)))
             );
 
-            if (error <= this->err_tol) this->converged = true;
+            if (error <= this->err_tol)
+            {
+              // further iterations could bring the error back above the tolerance
+              this->converged = true;
+              break;
+            }
 
             lap_err(this->ijk) = this->lap(this->err, this->ijk, this->dijk, false, simple);
 
-- 
2.43.0


From 9740db47172bce0707a2edc6aa1a40506f7696a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 14/14] fix: preconditioned pressure solver (pc) did not
 compile: lap and precond called without the initial/simple flags

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
index 3c24e1c..2b2e9f3 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
@@ -50,7 +50,7 @@ namespace libmpdataxx
           for (int it=0; it<=pc_iters; it++)
           {
             q_err(this->ijk)    += real_t(.25) * pcnd_err(this->ijk);
-            pcnd_err(this->ijk) += real_t(.25) * this->lap(this->pcnd_err, this->ijk, this->dijk);
+            pcnd_err(this->ijk) += real_t(.25) * this->lap(this->pcnd_err, this->ijk, this->dijk, false, simple);
           }
         }
 
@@ -76,7 +76,7 @@ namespace libmpdataxx
 
           if (error <= this->err_tol) this->converged = true;
 
-          precond();
+          precond(simple);
 
           this->lap_q_err(this->ijk) = this->lap(this->q_err, this->ijk, this->dijk, false, simple);
 
-- 
2.43.0

