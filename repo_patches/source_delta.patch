From 121eeae627e7eef243972e61a4014f6be5b09ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 01/84] fix: send pass-by-object values without blocking before
 the barrier

A blocking send is allowed to wait for the matching receive, but the receives
are only posted after the barrier, so a value too large to be buffered by MPI
deadlocked the transfer.
---
 openmdao/core/petsc_impl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/petsc_impl.py b/openmdao/core/petsc_impl.py
index dccd508..2a6bb7e 100644
--- a/openmdao/core/petsc_impl.py
+++ b/openmdao/core/petsc_impl.py
@@ -448,6 +448,7 @@ class PetscDataTransfer(object):
                 comm = self.sysdata.comm
                 iproc = comm.rank
                 mylocals = self.sysdata.all_locals[iproc]
+                reqs = []
                 for itag, (tgt, src) in enumerate(self.byobj_conns):
                     # if we're the owning rank of the src, send it out to
                     # systems that don't have it locally.
@@ -457,7 +458,9 @@ class PetscDataTransfer(object):
                         for i, localvars in enumerate(self.sysdata.all_locals):
                             if i != iproc and src not in localvars and tgt in localvars:
                                 if trace: debug("sending %s" % val)
-                                comm.send(val, dest=i, tag=itag)
+                                # a blocking send may wait for its receive,
+                                # which is only posted after the barrier below
+                                reqs.append(comm.isend(val, dest=i, tag=itag))
                                 if trace: debug("DONE sending %s" % val)
 
                 # ensure that all src values have been sent before we receive
@@ -483,3 +486,6 @@ class PetscDataTransfer(object):
                                 tgtvec[tgt]._assign_to(val)
                             else:
                                 tgtvec[tgt] = val
+
+                for req in reqs:
+                    req.wait()
-- 
2.43.0


From 0887a76fb46be7c250d4bb941830c79f17496489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 02/84] fix: norms of the change of the unknowns are over all
 processes

Newton and NLGaussSeidel decided whether to stop, and NLGaussSeidel computed
its Aitken factor, from the local part of the unknowns, so processes could leave
the iteration at different times and the job hung.
---
 openmdao/core/petsc_impl.py         | 20 ++++++++++++++++++++
 openmdao/core/vec_wrapper.py        | 20 ++++++++++++++++++++
 openmdao/solvers/newton.py          |  3 ++-
 openmdao/solvers/nl_gauss_seidel.py |  9 +++++----
 4 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/petsc_impl.py b/openmdao/core/petsc_impl.py
index 2a6bb7e..9639a00 100644
--- a/openmdao/core/petsc_impl.py
+++ b/openmdao/core/petsc_impl.py
@@ -215,6 +215,26 @@ class PetscSrcVecWrapper(SrcVecWrapper):
         self.petsc_vec.assemble()
         return self.petsc_vec.norm()
 
+    def inner(self, arr1, arr2):
+        """
+        Calculates the inner product of two arrays that are laid out like
+        this vector, summed over all of the processes that share it.
+
+        Args
+        ----
+        arr1 : ndarray
+            Local part of the first array.
+
+        arr2 : ndarray
+            Local part of the second array.
+
+        Returns
+        -------
+        float
+            The inner product of the distributed arrays.
+        """
+        return self.comm.allreduce(np.dot(arr1, arr2))
+
     def get_view(self, system, comm, varmap):
         view = super(PetscSrcVecWrapper, self).get_view(system, comm, varmap)
         if trace:  # pragma: no cover
diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index ea87137..ca8fa4d 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -577,6 +577,26 @@ class VecWrapper(object):
         """
         return norm(self.vec)
 
+    def inner(self, arr1, arr2):
+        """
+        Calculates the inner product of two arrays that are laid out like
+        this vector.
+
+        Args
+        ----
+        arr1 : ndarray
+            First array.
+
+        arr2 : ndarray
+            Second array.
+
+        Returns
+        -------
+        float
+            The inner product of the arrays.
+        """
+        return numpy.dot(arr1, arr2)
+
     def get_view(self, system, comm, varmap):
         """
         Return a new `VecWrapper` that is a view into this one.
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 2643281..d1a8278 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -230,7 +230,8 @@ class Newton(NonLinearSolver):
             self.recorders.record_iteration(system, local_meta)
 
             f_norm = resids.norm()
-            u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
+            delta_u = unknowns.vec - unknowns_cache
+            u_norm = np.sqrt(unknowns.inner(delta_u, delta_u))
             if iprint == 2:
                 self.print_norm(self.print_name, system, self.iter_count,
                                 f_norm, f_norm0, u_norm=u_norm)
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 83e28bf..c956852 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -149,7 +149,8 @@ class NLGaussSeidel(NonLinearSolver):
             # Evaluate Norm
             system.apply_nonlinear(params, unknowns, resids)
             normval = resids.norm()
-            u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
+            delta_u_n = unknowns.vec - unknowns_cache
+            u_norm = np.sqrt(unknowns.inner(delta_u_n, delta_u_n))
 
             if self.options['use_aitken']: # If Aitken acceleration is enabled
                 
@@ -166,13 +167,13 @@ class NLGaussSeidel(NonLinearSolver):
                     normval/basenorm > rtol  and \
                     u_norm > utol:
 
-                    delta_u_n = unknowns.vec - unknowns_cache
                     delta_u_n_1 = self.delta_u_n_1
+                    delta_diff = delta_u_n - delta_u_n_1
 
                     # Compute relaxation factor 
                     self.aitken_alpha = self.aitken_alpha * \
-                        (1. - np.dot((delta_u_n  - delta_u_n_1), delta_u_n) \
-                        / np.linalg.norm((delta_u_n  - delta_u_n_1), 2)**2)
+                        (1. - unknowns.inner(delta_diff, delta_u_n) \
+                        / unknowns.inner(delta_diff, delta_diff))
 
                     # Limit relaxation factor to desired range
                     self.aitken_alpha = max(self.options['aitken_alpha_min'], 
-- 
2.43.0


From 4b805950da4ef869968465087bff5c9666bfbc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 03/84] fix: LinearGaussSeidel iterates towards the solution
 when maxiter is above one

The previous solution of a subsystem entered its own right hand side in
forward mode, and the residual norm compared the right hand side with an
incomplete operator, so an iterated solve neither converged nor stopped.
---
 openmdao/solvers/ln_gauss_seidel.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index abd9d68..b8864ca 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -138,6 +138,12 @@ class LinearGaussSeidel(LinearSolver):
 
                     # print(sub.name, sorted(gs_outputs['fwd'][sub.name][None]))
 
+                    # The diagonal block of this subsystem is handled by its
+                    # solve_linear below, so it must not see the solution of
+                    # the previous iteration.
+                    for voi in vois:
+                        sub.dumat[voi].vec[:] = 0.0
+
                     # Groups and all other systems just call their own
                     # apply_linear.
                     sub._sys_apply_linear(mode, system._do_apply, vois=vois,
@@ -252,10 +258,14 @@ class LinearGaussSeidel(LinearSolver):
             solve.
         """
 
-        # we used to build gs_outputs up using dumat, but dumat is already
-        # identical to gs_outputs in the vois we care about, so just use it.
-        system._sys_apply_linear(mode, system._do_apply, vois=rhs_mat.keys(),
-                                gs_outputs=system.dumat)
+        # in reverse the operator adds to dumat, so start from zero. The
+        # solution itself is in drmat.
+        if mode == 'rev':
+            for voi in rhs_mat:
+                system.dumat[voi].vec[:] = 0.0
+
+        # the residual needs the whole operator, so no outputs are excluded.
+        system._sys_apply_linear(mode, system._do_apply, vois=rhs_mat.keys())
 
         if mode == 'fwd':
             rhs_vec = system.drmat
-- 
2.43.0


From 9285a7d5e66cdee3c5c4c44e61f67d7066584c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 04/84] fix: an implicit component without inputs still applies
 its derivatives

Its states dropped out of the linear operator, so total derivatives that
needed them were wrong.
---
 openmdao/core/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index eda51c0..a6da5bd 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -514,7 +514,9 @@ class Group(System):
                         self._do_apply[(s.pathname, voi)] = True
                         break
                 else:
-                    self._do_apply[(s.pathname, voi)] = False
+                    # a system without any inputs still has to apply the
+                    # derivatives with respect to its own states.
+                    self._do_apply[(s.pathname, voi)] = bool(s.states)
 
         self._relname_map = None  # reclaim some memory
 
-- 
2.43.0


From 7be64b46838ef35f1b1a5021aa73bac6bce8499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 05/84] fix: reverse derivatives of a duplicated parameter are
 added once

A parameter that takes some entries of its source (src_indices) in a component
that runs on several processes contributed once for each of them.
---
 openmdao/core/component.py | 7 +++++++
 openmdao/core/group.py     | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 9c67408..d1e5321 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -394,6 +394,13 @@ class Component(System):
                 for i, name in enumerate(names):
                     self._init_unknowns_dict[name]['distrib_size'] = np.sum(allsizes[:, i])
 
+            # every process has its own part of these params. The params of
+            # any other component are the same on all of its processes.
+            if type(self).setup_distrib is not Component.setup_distrib or \
+                    hasattr(self, 'setup_distrib_idxs'):
+                for meta in itervalues(self._init_params_dict):
+                    meta['distrib'] = True
+
         # key with absolute path names and add promoted names
         self._params_dict = OrderedDict()
         for name, meta in iteritems(self._init_params_dict):
diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index a6da5bd..bbbce7c 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1412,6 +1412,12 @@ class Group(System):
         udist = 'src_indices' in umeta
         pdist = 'src_indices' in pmeta
 
+        # a param that isn't distributed has the same derivatives on all of
+        # its processes, so only those of one of them can be added in reverse.
+        if rev and pdist and 'distrib' not in pmeta and \
+                iproc != self._owning_ranks[pname]:
+            return self.params.make_idx_array(0, 0), self.params.make_idx_array(0, 0)
+
         # FIXME: if we switch to push scatters, this check will flip
         if ((fwd and pacc.remote) or
             (rev and not pdist and uacc.remote) or
-- 
2.43.0


From a8d2f4b5c0e5f4f24bb2a3d2e14a6fe2e79cf055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 06/84] fix: subsystems of a ParallelGroup are inactive on a
 process that got none

They kept their variables as if they were local, so derivatives were wrong.
---
 openmdao/core/parallel_group.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/parallel_group.py b/openmdao/core/parallel_group.py
index 7ba54f2..6ef231c 100644
--- a/openmdao/core/parallel_group.py
+++ b/openmdao/core/parallel_group.py
@@ -251,9 +251,8 @@ class ParallelGroup(Group):
         rank_color = color[rank]
         sub_comm = comm.Split(rank_color)
 
-        if sub_comm == MPI.COMM_NULL:
-            return
-
+        # a process that got no color has no active subsystems, but its
+        # subsystems have to be told so.
         for i, b in enumerate(buckets):
             procs, subs = b
             for sub_idx in subs:
-- 
2.43.0


From f3d9210c55d6639c1099278085b46cb99136813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 07/84] fix: a parallel derivative group may contain an
 irrelevant variable

Its right hand side has no entries, so setting one raised an IndexError.
---
 openmdao/core/problem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c5bde79..afdd614 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1704,7 +1704,10 @@ class Problem(object):
                         # Note, we solve a slightly modified version of the unified
                         # derivatives equations in OpenMDAO.
                         # (dR/du) * (du/dr) = -I
-                        if self.root._owning_ranks[voi_srcs[vkey]] == iproc:
+                        # A var that is irrelevant to all quantities of interest
+                        # has no entry, so its right hand side stays at zero.
+                        if self.root._owning_ranks[voi_srcs[vkey]] == iproc and \
+                                voi_srcs[vkey] in self.root.dumat[vkey]:
                             rhs[vkey][voi_idxs[vkey][i]] = -1.0
 
                     # Solve the linear system
-- 
2.43.0


From 46cb23bb796d2eccc2faf1ccb75538d68017f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 08/84] fix: complex step of a component converts the units of
 the stepped input

The component saw the stepped input in the units of its source.
---
 openmdao/core/vec_wrapper_complex_step.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/vec_wrapper_complex_step.py b/openmdao/core/vec_wrapper_complex_step.py
index dbd2b59..41aef65 100644
--- a/openmdao/core/vec_wrapper_complex_step.py
+++ b/openmdao/core/vec_wrapper_complex_step.py
@@ -33,7 +33,12 @@ class ComplexStepTgtVecWrapper(object):
             The unflattened value of the named variable.
         """
         if name == self.step_var:
-            return self.step_val.reshape(self.vecwrap[name].shape)
+            acc = self.vecwrap._dat[name]
+            val = self.step_val.reshape(acc.get().shape)
+            if 'unit_conv' in acc.meta:
+                scale, offset = acc.meta['unit_conv']
+                val = (val + offset)*scale
+            return val
 
         return self.vecwrap._dat[name].get()
 
-- 
2.43.0


From 9f9b894970753d92fe5a70f108215b8839c5ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 09/84] fix: total finite differences use the step settings of
 promoted params

---
 openmdao/core/system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index a51c7f6..431077f 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -642,6 +642,9 @@ class System(object):
             # matching param.  If they differ, a warning has already been issued.
             if p_name in abs_pnames:
                 mydict = self._params_dict[abs_pnames[p_name][0]]
+            elif p_name in self._params_dict:
+                # total derivatives are requested by absolute name
+                mydict = self._params_dict[p_name]
 
             # Local settings for this var trump all
             fdstep = mydict.get('step_size', step_size)
-- 
2.43.0


From 753642901c8166f3159d18b939d9c3f29c56bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:49 +0000
Subject: [PATCH 10/84] fix: a finite differenced group solves for all
 variables of a parallel derivative group

---
 openmdao/core/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index bbbce7c..45c4e50 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -938,7 +938,7 @@ class Group(System):
         if self.deriv_options['type'] is not 'user':
             for voi in vois:
                 sol_vec[voi].vec[:] = -rhs_vec[voi].vec
-                return
+            return
 
         # Solve Jacobian, df |-> du [fwd] or du |-> df [rev]
         rhs_buf = OrderedDict()
-- 
2.43.0


From 87173a7a4d226a869135e0c67535b65198063373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 11/84] fix: finite differenced systems keep their params
 during total finite differences

They were left at the values of the last perturbed run, while the outputs were
restored, so that their derivatives came out wrong when approximated next.
---
 openmdao/core/system.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 431077f..8ef31b4 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -586,6 +586,17 @@ class System(object):
             run_model = self._sys_solve_nonlinear
             resultvec = unknowns
             states = ()
+
+            # Running the model changes the params of the systems below. When
+            # one of these is finite differenced later, the results are
+            # compared with its present outputs, so it needs its present
+            # params.
+            saved_params = []
+            for sub in self.subsystems(local=True, recurse=True):
+                if sub.deriv_options['type'] != 'user':
+                    for acc in itervalues(sub.params._dat):
+                        if not (acc.pbo or acc.remote):
+                            saved_params.append((acc.val, acc.val.copy()))
         else:
             run_model = self._sys_apply_nonlinear
             resultvec = resids
@@ -782,6 +793,10 @@ class System(object):
                     # Restore old residual
                     resultvec.vec[:] = cache1
 
+        if total_derivs:
+            for val, cache in saved_params:
+                val[:] = cache
+
         if self._num_par_fds > 1:
             if trace:  # pragma: no cover
                 debug("%s: allgathering parallel FD columns" % self.pathname)
-- 
2.43.0


From dbc1b780c1a067cf4c96fb6ce2ffd63ba797b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 12/84] fix: the states of a finite differenced group are not
 solved for again

The linear solvers saw the states of the components inside, with zero
derivatives, which made the system of equations singular.
---
 openmdao/core/system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 8ef31b4..1870368 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -838,6 +838,10 @@ class System(object):
         """
         force_fd = self.deriv_options['type'] is not 'user'
         states = self.states
+        if force_fd and self._local_subsystems:
+            # a finite differenced group is differentiated as a whole, so its
+            # states are among its outputs.
+            states = ()
         is_relevant = self._probdata.relevance.is_relevant_system
         fwd = mode == "fwd"
 
-- 
2.43.0


From 723bb14968a8c5ac6e7eb11557028aa3b6f2604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 13/84] fix: all processes take part in every step of a
 parallel DOE

Only the first process of each parallel DOE knew when another one had cases
left, so with several processes per case and unequal numbers of cases the others
stopped early and the job hung. A dummy case gathers only when real ones do.
---
 openmdao/drivers/predeterminedruns_driver.py |  6 ++++--
 openmdao/recorders/recording_manager.py      | 11 ++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 4d77d9b..1a7ee36 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -653,9 +653,11 @@ class PredeterminedRunsDriver(Driver):
         any of the other members of the MPI comm have any cases left to run,
         so that we can prevent hanging calls to gather.
         """
-        comm = self._casecomm
+        # every process takes part in the collective calls for each case, not
+        # only the rank 0 processes that are in the casecomm.
+        comm = self._full_comm
 
-        if comm is None:
+        if not MPI or comm is None:
             for case in it:
                 yield case
         else:
diff --git a/openmdao/recorders/recording_manager.py b/openmdao/recorders/recording_manager.py
index 319116b..19fa721 100644
--- a/openmdao/recorders/recording_manager.py
+++ b/openmdao/recorders/recording_manager.py
@@ -188,11 +188,12 @@ class RecordingManager(object):
         cases = None
 
         if MPI:
-            if dummy and self._casecomm is not None:
-                case = (None, None, None, None)
-                if trace: debug("DUMMY gathering cases")
-                cases = self._casecomm.gather(case, root=0)
-                if trace: debug("DUMMY done gathering cases:")
+            if dummy:
+                if self._casecomm is not None and self._has_serial_recorders:
+                    case = (None, None, None, None)
+                    if trace: debug("DUMMY gathering cases")
+                    cases = self._casecomm.gather(case, root=0)
+                    if trace: debug("DUMMY done gathering cases:")
                 return
 
             pnames = self._vars_to_record['pnames']
-- 
2.43.0


From c1ff8fb86daa0e18c6f0525ed57ead92f53a8f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 14/84] fix: a load balanced DOE of a multi-process model is
 refused on all processes

Only the master process raised an error, the others waited for it for ever.
---
 openmdao/drivers/predeterminedruns_driver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 1a7ee36..6ce9cec 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -133,6 +133,11 @@ class PredeterminedRunsDriver(Driver):
         if MPI and self._num_par_doe > 1:
             minprocs, maxprocs = root.get_req_procs()
             if self._load_balance:
+                if minprocs > 1:
+                    # the master process has a model of its own
+                    raise RuntimeError("A load balanced parallel DOE can't be "
+                                       "used with a model that needs %d MPI "
+                                       "processes." % minprocs)
                 sizes, offsets = evenly_distrib_idxs(self._num_par_doe-1,
                                                      comm.size-1)
                 sizes = [1]+list(sizes)
-- 
2.43.0


From d8e9beaa2d9fc0b31a8686daf9d07e983d9b48fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:07 +0000
Subject: [PATCH 15/84] fix: a process without a part in a ParallelFDGroup sets
 it up as inactive

It failed on the null communicator, the other processes waited for it.
---
 openmdao/core/parallel_fd_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/parallel_fd_group.py b/openmdao/core/parallel_fd_group.py
index d0d809f..258aa6c 100644
--- a/openmdao/core/parallel_fd_group.py
+++ b/openmdao/core/parallel_fd_group.py
@@ -83,7 +83,7 @@ class ParallelFDGroup(Group):
         self._full_comm = comm
 
         # figure out which parallel FD we are associated with
-        if self._num_par_fds > 1:
+        if self._num_par_fds > 1 and comm != MPI.COMM_NULL:
             minprocs, maxprocs = super(ParallelFDGroup, self).get_req_procs()
             sizes, offsets = evenly_distrib_idxs(self._num_par_fds, comm.size)
 
-- 
2.43.0


From d44b70fcccc80de1cd7dafe89a40301ad34bc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:07 +0000
Subject: [PATCH 16/84] fix: ParallelGroup gives every subsystem what it asked
 for

Processes were dealt out one at a time, so that a subsystem could get less than
its minimum although there were enough, and setup did not end when no subsystem
could use the processes left over.
---
 openmdao/core/parallel_group.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/parallel_group.py b/openmdao/core/parallel_group.py
index 6ef231c..464dd2f 100644
--- a/openmdao/core/parallel_group.py
+++ b/openmdao/core/parallel_group.py
@@ -174,8 +174,14 @@ class ParallelGroup(Group):
             if size >= requested: # we have enough for all subsystems
                 while assigned < limit:
                     for i, system in enumerate(subsystems):
-                        if max_req_procs[i] is None or \
-                           assigned_procs[i] < max_req_procs[i]:
+                        # leave enough for the subsystems that have not got
+                        # what they asked for yet
+                        missing = sum(max(0, r-a) for j, (r, a) in
+                                      enumerate(zip(requested_procs,
+                                                    assigned_procs)) if j != i)
+                        if limit - assigned > missing and \
+                           (max_req_procs[i] is None or
+                            assigned_procs[i] < max_req_procs[i]):
                             assigned_procs[i] += 1
                             assigned += 1
                             if assigned == limit:
@@ -221,7 +227,9 @@ class ParallelGroup(Group):
 
                 # if we have any procs left over, apply them to any sub that
                 # can use them
-                while remaining > 0:
+                more = True
+                while remaining > 0 and more:
+                    more = False
                     for i,b in enumerate(buckets):
                         procs, subs = b
                         for sub_idx in subs:
@@ -229,6 +237,7 @@ class ParallelGroup(Group):
                                        max_req_procs[sub_idx] > procs):
                                 buckets[i] = (procs+1, subs)
                                 remaining -= 1
+                                more = True
                                 break
                         if remaining == 0:
                             break
-- 
2.43.0


From 9f49202035b1b6ebef9733db2963ed7adae4dd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 17/84] fix: get_all_responses gives all responses to every
 process

Only the first process of each parallel DOE took part in the gather, and none
under load balancing.
---
 openmdao/drivers/predeterminedruns_driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 6ce9cec..4f30652 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -380,11 +380,11 @@ class PredeterminedRunsDriver(Driver):
         """Similar to get_responses(), but this version ensures that each
         process gets all of the responses.
         """
-        if self._casecomm is None:
+        if not MPI:
             for r in self.get_responses():
                 yield r
         else:
-            all_recs = self._casecomm.allgather(self._resp_recorder)
+            all_recs = self._full_comm.allgather(self._resp_recorder)
 
             for rec in all_recs:
                 if rec is not None:
-- 
2.43.0


From fcf95abc1b7937f29af0f4b4e007581d00341ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 18/84] fix: InMemoryRecorder keeps copies of the values

It kept views of the vectors, so all iterations showed the values of the last one.
---
 openmdao/recorders/inmem_recorder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openmdao/recorders/inmem_recorder.py b/openmdao/recorders/inmem_recorder.py
index 8ec23f4..f110be2 100644
--- a/openmdao/recorders/inmem_recorder.py
+++ b/openmdao/recorders/inmem_recorder.py
@@ -5,6 +5,7 @@ and using it for real problems could use up large amounts of memory.
 """
 
 import sys
+from copy import deepcopy
 
 from six import string_types, iteritems
 
@@ -69,6 +70,7 @@ class InMemoryRecorder(BaseRecorder):
             Dictionary containing execution metadata (e.g. iteration coordinate).
         """
 
+        # the values are views of vectors that will change, so copy them
         data = {}
         iteration_coordinate = metadata['coord']
 
@@ -78,17 +80,17 @@ class InMemoryRecorder(BaseRecorder):
         data['msg'] = metadata['msg']
 
         if self.options['record_params']:
-            data['params'] = {p:v for p,v in
+            data['params'] = {p:deepcopy(v) for p,v in
                                  iteritems(self._filter_vector(params,'p',
                                                         iteration_coordinate))}
 
         if self.options['record_unknowns']:
-            data['unknowns'] = {u:v for u,v in
+            data['unknowns'] = {u:deepcopy(v) for u,v in
                                   iteritems(self._filter_vector(unknowns,'u',
                                                         iteration_coordinate))}
 
         if self.options['record_resids']:
-            data['resids'] = {r:v for r,v in
+            data['resids'] = {r:deepcopy(v) for r,v in
                                   iteritems(self._filter_vector(resids,'r',
                                                          iteration_coordinate))}
 
@@ -122,6 +124,6 @@ class InMemoryRecorder(BaseRecorder):
         timestamp = metadata['timestamp']
 
         data['timestamp'] = timestamp
-        data['Derivatives'] = derivs
+        data['Derivatives'] = deepcopy(derivs)
 
         self.deriv_iters.append(data)
-- 
2.43.0


From bb1b9e92f167f688195d551cc85be65eecd7e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 19/84] fix: a terminating DOE worker process answers for the
 cases it skips

---
 openmdao/drivers/predeterminedruns_driver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 4f30652..e72a17f 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -48,6 +48,10 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
             #logging.info("worker %d, case id %d, case %s" % (worker_id, case_id, case))
 
             if terminate:
+                # the master waits for a reply to every case it has sent
+                response_queue.put(({'id': case_id, 'success': 0,
+                                     'terminate': 1,
+                                     'msg': metadata['msg']}, []))
                 continue
 
             metadata = driver._prep_case(case, case_id)
-- 
2.43.0


From 631ff04febac850faa6b25f48593a83851a0eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 20/84] fix: a process without a case stops when a parallel DOE
 fails

---
 openmdao/drivers/predeterminedruns_driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index e72a17f..52c524c 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -509,7 +509,8 @@ class PredeterminedRunsDriver(Driver):
         for case in self._get_case_w_nones(self._distrib_build_runlist()):
             if case is None: # dummy cases have case == None
                 # must take part in collective Allreduce call
-                any_proc_is_true(self._full_comm, False)
+                if any_proc_is_true(self._full_comm, False):
+                    raise RuntimeError("an exception was raised by another MPI process.")
                 metadata = None
 
             else:  # case is not a dummy case
-- 
2.43.0


From f063eb420360333be2517a45689b4eb8e092896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:43 +0000
Subject: [PATCH 21/84] fix: random designs draw all samples before the model
 runs

---
 openmdao/drivers/latinhypercube_driver.py | 7 ++++++-
 openmdao/drivers/uniform_driver.py        | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index f62337b..0744570 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -83,7 +83,9 @@ class LatinHypercubeDriver(PredeterminedRunsDriver):
                                       for i in range(self.num_samples)])
                 j += 1
 
-        # Return random values in given buckets
+        # Return random values in given buckets. Draw all of them before the
+        # first one is run, because the model may draw random numbers too.
+        samples = []
         for i in range(self.num_samples):
             sample = []
             for key, bounds in iteritems(buckets):
@@ -91,6 +93,9 @@ class LatinHypercubeDriver(PredeterminedRunsDriver):
                                                                 bounds[k][i][1])
                                               for k in range(design_vars[key]['size'])])
                                ])
+            samples.append(sample)
+
+        for sample in samples:
             yield sample
 
     def _distrib_build_runlist(self):
diff --git a/openmdao/drivers/uniform_driver.py b/openmdao/drivers/uniform_driver.py
index 9afc004..c300381 100644
--- a/openmdao/drivers/uniform_driver.py
+++ b/openmdao/drivers/uniform_driver.py
@@ -39,6 +39,9 @@ class UniformDriver(PredeterminedRunsDriver):
         if self.seed is not None:
             np.random.seed(self.seed)
 
+        # Draw all samples before the first one is run, because the model may
+        # draw random numbers too.
+        samples = []
         for i in moves.range(self.num_samples):
             sample = []
             for key, meta in iteritems(self.get_desvar_metadata()):
@@ -56,4 +59,7 @@ class UniformDriver(PredeterminedRunsDriver):
                     values.append(np.random.uniform(low, high))
                 sample.append([key, np.array(values)])
 
+            samples.append(sample)
+
+        for sample in samples:
             yield sample
-- 
2.43.0


From 559579c1870c2ae40b62df36c4227847b0f679f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:43 +0000
Subject: [PATCH 22/84] fix: all processes of a parallel DOE share the uniform
 samples

---
 openmdao/drivers/uniform_driver.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openmdao/drivers/uniform_driver.py b/openmdao/drivers/uniform_driver.py
index c300381..82f5eaf 100644
--- a/openmdao/drivers/uniform_driver.py
+++ b/openmdao/drivers/uniform_driver.py
@@ -63,3 +63,20 @@ class UniformDriver(PredeterminedRunsDriver):
 
         for sample in samples:
             yield sample
+
+    def _distrib_build_runlist(self):
+        """
+        Returns an iterator over only those cases meant to execute in the
+        current rank. All processes share the samples drawn by the root
+        process, since without a seed each process would draw its own.
+        """
+        comm = self._full_comm
+
+        run_list = None
+        if comm.rank == 0:
+            run_list = list(self._build_runlist())
+        run_list = comm.bcast(run_list, root=0)
+
+        for i, case in enumerate(run_list):
+            if (i % self._num_par_doe) == self._par_doe_id:
+                yield case
-- 
2.43.0


From 46f6347c6eb4bb53d71c0306cf693170a9b8635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 23/84] fix: concurrent_eval_lb runs its cases when the
 communicator has one process

---
 openmdao/util/concurrent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/concurrent.py b/openmdao/util/concurrent.py
index 76f7c08..58a6720 100644
--- a/openmdao/util/concurrent.py
+++ b/openmdao/util/concurrent.py
@@ -26,7 +26,8 @@ def concurrent_eval_lb(func, cases, comm, broadcast=False):
         that the return value of concurrent_eval_lb will be the full result
         list in every process.
     """
-    if comm is not None:
+    # with only one process there is no worker besides the master
+    if comm is not None and comm.size > 1:
         if comm.rank == 0:  # master rank
             results = _concurrent_eval_lb_master(cases, comm)
         else:
-- 
2.43.0


From 42bec163f769f37633971107f2d9c980ebccebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 24/84] fix: concurrent_eval_lb with a single worker runs all
 cases

---
 openmdao/util/concurrent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openmdao/util/concurrent.py b/openmdao/util/concurrent.py
index 58a6720..29c275f 100644
--- a/openmdao/util/concurrent.py
+++ b/openmdao/util/concurrent.py
@@ -86,11 +86,6 @@ def _concurrent_eval_lb_master(cases, comm):
             # store results
             results.append((retval, err))
 
-            # don't stop until we hear back from every worker process
-            # we sent a case to
-            if received == sent:
-                break
-
             try:
                 case = next(case_iter)
             except StopIteration:
@@ -100,6 +95,11 @@ def _concurrent_eval_lb_master(cases, comm):
                 comm.send(case, worker, tag=1)
                 sent += 1
 
+            # don't stop until we hear back from every worker process
+            # we sent a case to
+            if received == sent:
+                break
+
     # tell all workers to stop
     for rank in range(1, comm.size):
         comm.send((None, None), rank, tag=1)
-- 
2.43.0


From 25561734dc01a432eb5cf54e63f1601acd3d79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:08 +0000
Subject: [PATCH 25/84] fix: set_desvar accepts index zero and remote variables

---
 openmdao/core/driver.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 3724efe..6a0d3ea 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -477,11 +477,7 @@ class Driver(object):
         index : integer, optional
             Index of the desvar to set.
         """
-        # support for uncertain samples
-        if index:
-            val = self.root.unknowns._dat[name].val[index]
-        else:
-            val = self.root.unknowns._dat[name].val
+        val = self.root.unknowns._dat[name].val
         if not isinstance(val, _ByObjWrapper) and \
                        self.root.unknowns._dat[name].val.size == 0:
             return
@@ -491,7 +487,7 @@ class Driver(object):
         adder = meta['adder']
 
         if isinstance(scaler, np.ndarray):
-            if index:
+            if index is not None:
                 value = value/scaler[index]
             else:
                 value = value/scaler
@@ -504,7 +500,7 @@ class Driver(object):
         # (as in always doing the scaler/adder operation.)
 
         if isinstance(adder, np.ndarray):
-            if index:
+            if index is not None:
                 value = value - adder[index]
             else:
                 value = value - adder
@@ -512,7 +508,7 @@ class Driver(object):
             value = value - adder
 
         # Only set the indices we requested when we set the design variable.
-        if index:
+        if index is not None:
             idx = index
         else:
             idx = meta.get('indices')
-- 
2.43.0


From 0a1787f89102abfc27801286adce1a2163254ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:57 +0000
Subject: [PATCH 26/84] fix: sparsity of index connections takes promoted
 inputs into account

---
 openmdao/drivers/pyoptsparse_driver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 73b4c67..c12eb3a 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -185,6 +185,8 @@ class pyOptSparseDriver(Driver):
             for target, info in iteritems(problem.root.connections):
                 src, indices = info
                 if src == pathname:
+                    # relevance is in terms of promoted names
+                    target = problem.root._sysdata.to_prom_pname[target]
                     if indices is not None:
                         # Need to map the connection indices onto the desvar
                         # indices if both are declared.
-- 
2.43.0


From cee4ff1f76a95c8824de429581202e01ab3ab086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:42 +0000
Subject: [PATCH 27/84] fix: several processes may create the directory of a
 system

---
 openmdao/core/component.py |  3 ++-
 openmdao/core/system.py    |  4 ++--
 openmdao/util/file_util.py | 16 ++++++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index d1e5321..85a69f4 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -20,6 +20,7 @@ from openmdao.core.vec_wrapper_complex_step import ComplexStepSrcVecWrapper, \
                                                    ComplexStepTgtVecWrapper
 from openmdao.core.fileref import FileRef
 from openmdao.units.units import PhysicalQuantity
+from openmdao.util.file_util import ensure_dir
 from openmdao.util.type_util import is_differentiable
 
 # Object to represent default value for `add_output`.
@@ -463,7 +464,7 @@ class Component(System):
         d = fref._abspath()
         if self.is_active() and not os.path.exists(os.path.dirname(d)):
             if self.create_dirs:
-                os.makedirs(os.path.dirname(d))
+                ensure_dir(os.path.dirname(d))
             else:
                 raise RuntimeError("directory '%s' doesn't exist "
                                    "for FileRef('%s'). Set create_dirs=True "
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 1870368..3a96d50 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -17,7 +17,7 @@ import numpy as np
 from openmdao.core.mpi_wrap import MPI
 from openmdao.core.vec_wrapper import VecWrapper, _PlaceholderVecWrapper
 from openmdao.units.units import get_conversion_tuple
-from openmdao.util.file_util import DirContext
+from openmdao.util.file_util import DirContext, ensure_dir
 from openmdao.util.options import OptionsDictionary, DeprecatedOptionsDictionary
 from openmdao.util.string_util import name_relative_to
 from openmdao.util.type_util import real_types
@@ -483,7 +483,7 @@ class System(object):
 
         if (self.create_dirs and self.is_active() and
                      not os.path.exists(self._sysdata.absdir)):
-            os.makedirs(self._sysdata.absdir)
+            ensure_dir(self._sysdata.absdir)
 
     def fd_jacobian(self, params, unknowns, resids, total_derivs=False,
                     fd_params=None, fd_unknowns=None, fd_states=None, pass_unknowns=(),
diff --git a/openmdao/util/file_util.py b/openmdao/util/file_util.py
index 9b23e63..9b32526 100644
--- a/openmdao/util/file_util.py
+++ b/openmdao/util/file_util.py
@@ -10,6 +10,22 @@ from fnmatch import fnmatch
 from os.path import join, dirname, exists, abspath
 
 
+def ensure_dir(path):
+    """Create a directory, including its parents, unless it exists. Other
+    processes may be creating it at the same time.
+
+    Args
+    ----
+    path : str
+        Path of the directory.
+    """
+    try:
+        os.makedirs(path)
+    except OSError:
+        if not os.path.isdir(path):
+            raise
+
+
 def build_directory(dct, force=False, topdir='.'):
     """Create a directory structure based on the contents of a nested dict.
     The directory is created in the specified top directory or in the current
-- 
2.43.0


From 32f9f75ca165091978d0b4e4dcb88e6695ddd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 28/84] fix: all copies of a file are complete before a process
 goes on

---
 openmdao/core/petsc_impl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openmdao/core/petsc_impl.py b/openmdao/core/petsc_impl.py
index 9639a00..8b3c247 100644
--- a/openmdao/core/petsc_impl.py
+++ b/openmdao/core/petsc_impl.py
@@ -509,3 +509,10 @@ class PetscDataTransfer(object):
 
                 for req in reqs:
                     req.wait()
+
+                # a copied file may be used by all of the processes that have
+                # copied it, and its source may be written again, only after
+                # every copy is complete.
+                if trace: debug("waiting on comm.barrier")
+                comm.barrier()
+                if trace: debug("comm.barrier DONE")
-- 
2.43.0


From aed6f96a82ff5d0d34fc97b2710815ee630c9500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:46 +0000
Subject: [PATCH 29/84] fix: a process may have no part of a distributed
 variable

---
 openmdao/core/_checks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 9cea879..6924a79 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -133,7 +133,8 @@ def __check_shapes_match(src, target, to_prom_name):
                              _both_names(src, to_prom_name), target['shape'],
                              _both_names(target, to_prom_name)))
 
-    if src_idxs is not None:
+    # a process may have no entries of the source at all
+    if src_idxs is not None and len(src_idxs) > 0:
         if 'src_indices' in src:
             ssize = src['distrib_size']
         else:
-- 
2.43.0


From 046a0625e21211ed4edd3dc0ae0c4c94fbdae7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:18 +0000
Subject: [PATCH 30/84] fix: processes without a distributed component know
 that its variables are distributed

---
 openmdao/core/group.py   |  2 +-
 openmdao/core/problem.py | 44 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 45c4e50..c71f5a4 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1420,7 +1420,7 @@ class Group(System):
 
         # FIXME: if we switch to push scatters, this check will flip
         if ((fwd and pacc.remote) or
-            (rev and not pdist and uacc.remote) or
+            (rev and not pdist and not udist and uacc.remote) or
                 (rev and udist and not pdist and iproc != self._owning_ranks[pname])):
             # just return empty index arrays for remote vars
             return self.params.make_idx_array(0, 0), self.params.make_idx_array(0, 0)
diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index afdd614..592439b 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -486,6 +486,7 @@ class Problem(object):
         #     'val': 2.5,   # the initial value of that variable (if known)
         #  }
         params_dict, unknowns_dict = self.root._setup_variables()
+        self._share_distrib_info(params_dict, unknowns_dict)
 
         self._probdata.params_dict = params_dict
         self._probdata.unknowns_dict = unknowns_dict
@@ -679,6 +680,49 @@ class Problem(object):
 
         return {}
 
+    def _share_distrib_info(self, params_dict, unknowns_dict):
+        """
+        Mark the distributed variables of the components that are not active
+        in this process, which have no entries here, as distributed.
+
+        Args
+        ----
+        params_dict : OrderedDict
+            Dictionary containing metadata of all params.
+
+        unknowns_dict : OrderedDict
+            Dictionary containing metadata of all unknowns.
+        """
+        if not MPI or self.comm.size == 1:
+            return
+
+        local = [(name, None) for name, meta in iteritems(params_dict)
+                     if 'distrib' in meta and 'src_indices' in meta]
+        local.extend([(name, meta['distrib_size'])
+                      for name, meta in iteritems(unknowns_dict)
+                          if 'distrib_size' in meta])
+
+        if trace:  # pragma: no cover
+            debug("problem setup allgather of distributed variables")
+        everywhere = self.comm.allgather(local)
+        if trace:  # pragma: no cover
+            debug("problem setup allgather of distributed variables DONE")
+
+        no_idxs = np.zeros(0, dtype=self._impl.idx_arr_type)
+        for name, distrib_size in chain(*everywhere):
+            if distrib_size is None:
+                meta = params_dict[name]
+                if 'distrib' not in meta:
+                    meta['src_indices'] = no_idxs
+                    meta['val'] = np.zeros(0)
+                    meta['shape'] = (0,)
+                    meta['size'] = 0
+            else:
+                meta = unknowns_dict[name]
+                if 'distrib_size' not in meta:
+                    meta['src_indices'] = no_idxs
+                    meta['distrib_size'] = distrib_size
+
     def cleanup(self):
         """ Clean up resources prior to exit. """
         self.driver.cleanup()
-- 
2.43.0


From 5d00960e5079bbda5341fe501c38caa4bf08e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:04 +0000
Subject: [PATCH 31/84] fix: a problem stays set up when parts of another
 problem are created

---
 openmdao/core/problem.py | 32 ++++++++++++++++++++++++++++++--
 openmdao/util/options.py |  6 +++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 592439b..863dba3 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -30,6 +30,7 @@ from openmdao.components.indep_var_comp import IndepVarComp
 from openmdao.solvers.scipy_gmres import ScipyGMRES
 from openmdao.solvers.ln_direct import DirectSolver
 from openmdao.solvers.ln_gauss_seidel import LinearGaussSeidel
+from openmdao.solvers.solver_base import SolverBase
 
 from openmdao.units.units import get_conversion_tuple
 from openmdao.util.string_util import get_common_ancestor, nearest_child, name_relative_to
@@ -669,6 +670,8 @@ class Problem(object):
 
         # Lock any restricted options in the options dictionaries.
         OptionsDictionary.locked = True
+        for options in self._option_dicts():
+            options.in_setup_problem = True
 
         # Recursively call post_setup on all subsystems
         for s in self.root.subsystems(recurse=True, include_self=True):
@@ -728,6 +731,31 @@ class Problem(object):
         self.driver.cleanup()
         self.root.cleanup()
 
+    def _option_dicts(self):
+        """ Generator over the options of the driver, of all systems and of
+        their solvers and recorders."""
+
+        yield self.driver.options
+        for recorder in self.driver.recorders:
+            yield recorder.options
+
+        for sub in self.root.subsystems(recurse=True, include_self=True):
+            yield sub.deriv_options
+
+        solvers = []
+        for sub in self.root.subgroups(recurse=True, include_self=True):
+            solvers.extend((sub.nl_solver, sub.ln_solver))
+
+        while solvers:
+            solver = solvers.pop()
+            yield solver.options
+            for recorder in getattr(solver, 'recorders', ()):
+                yield recorder.options
+
+            # a solver may have solvers of its own, e.g. a line search
+            solvers.extend([val for val in itervalues(solver.__dict__)
+                                if isinstance(val, SolverBase)])
+
     def _check_solvers(self):
         """ Search over all solvers and raise errors for unsupported
         configurations. These include:
@@ -1182,7 +1210,7 @@ class Problem(object):
 
         # New message if you forget to run setup first, or if you assign a
         # new ln or nl solver and forget to run setup.
-        if not self.root.deriv_options.locked:
+        if not all(options.in_setup_problem for options in self._option_dicts()):
             msg = "Before running the model, setup() must be called. If " + \
                  "the configuration has changed since it was called, then " + \
                  "setup must be called again before running the model."
@@ -2490,7 +2518,7 @@ class Problem(object):
         """
 
         root = self.root
-        if not root.deriv_options.locked:
+        if not root.deriv_options.in_setup_problem:
             msg="Please run setup before calling print_all_convergence."
             raise RuntimeError(msg)
 
diff --git a/openmdao/util/options.py b/openmdao/util/options.py
index d7c3329..4b8f47d 100644
--- a/openmdao/util/options.py
+++ b/openmdao/util/options.py
@@ -28,6 +28,9 @@ class OptionsDictionary(object):
         # When this is True, no variables in the dictionary can be modified.
         self.read_only = read_only
 
+        # True if the problem that uses this dictionary has been set up.
+        self.in_setup_problem = False
+
         # Start out with all dictionaries unlocked. Nobody should be creating
         # them after setup.
         # TODO: This really is a hack, but we couldn't figure out a way
@@ -138,7 +141,8 @@ class OptionsDictionary(object):
 
     def __setattr__(self, name, value):
         """ To prevent user error, disallow direct setting."""
-        if name in ['_options', 'read_only', '_deprecations', 'locked']:
+        if name in ['_options', 'read_only', '_deprecations', 'locked',
+                    'in_setup_problem']:
             super(OptionsDictionary, self).__setattr__(name, value)
         else:
             raise ValueError("Use dict-like access for option '{}'".format(name))
-- 
2.43.0


From 661711c7f1d42cbc8cd583ed343c4c59f6ad05a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 32/84] fix: the context of a directory may be entered again
 before it is left

---
 openmdao/util/file_util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openmdao/util/file_util.py b/openmdao/util/file_util.py
index 9b32526..7c15059 100644
--- a/openmdao/util/file_util.py
+++ b/openmdao/util/file_util.py
@@ -210,10 +210,15 @@ class DirContext(object):
     def __init__(self, dpath):
         self.dpath = dpath
 
+        # the directories to return to, because this may be entered again
+        # before it is left
+        self._starts = []
+
     def __enter__(self):
-        self.start = os.getcwd()
+        start = os.getcwd()
         os.chdir(self.dpath)
+        self._starts.append(start)
         return self.dpath
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        os.chdir(self.start)
+        os.chdir(self._starts.pop())
-- 
2.43.0


From 8ec48358b54afb28d57a230670cd50f538460618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 33/84] fix: a SubProblem may be in a group

---
 openmdao/components/subproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 99a25c4..27dea8e 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -109,7 +109,7 @@ class SubProblem(Component):
         umap = OrderedDict()
 
         for key in self._prob_unknowns:
-            pkey = '.'.join((self.name, key))
+            pkey = '.'.join((self.pathname, key))
             if pkey in parent_proms:
                 umap[parent_proms[pkey]] = key
 
-- 
2.43.0


From 46c7b74db4c18b8bf1e3c83a65bbb155c36cb370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 34/84] fix: params of a SubProblem may have units

---
 openmdao/components/subproblem.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 27dea8e..1c643c5 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -265,7 +265,13 @@ class SubProblem(Component):
 
             # if params are really unknowns, they may have changed, so update
             for name in self._unknowns_as_params:
-                params[name] = prob.root.unknowns[name]
+                val = prob.root.unknowns[name]
+                scale, offset = params.metadata(name).get('unit_conv',
+                                                          (None, None))
+                if scale is not None:
+                    # params are stored in the units of their source
+                    val = val/scale - offset
+                params[name] = val
         except:
             _reraise(self.pathname,  sys.exc_info())
 
-- 
2.43.0


From 78a9a66442d053cdb2b36a6da8e6d7aff943fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 35/84] fix: a SubProblem passes on exceptions of any kind

---
 openmdao/components/subproblem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 1c643c5..ebfb252 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -22,7 +22,11 @@ def _reraise(pathname, exc):
     just put a try block around all of the calls to the sub-Problem and
     preface any exception messages with "In subproblem 'x' ..."
     """
-    new_err = exc[0]("In subproblem '%s': %s" % (pathname, str(exc[1])))
+    try:
+        new_err = exc[0]("In subproblem '%s': %s" % (pathname, str(exc[1])))
+    except Exception:
+        # not all exceptions can be created from just a message
+        new_err = exc[1]
     reraise(exc[0], new_err, exc[2])
 
 class SubProblem(Component):
-- 
2.43.0


From 451e399cdb1f24b7db2161312d27db68c56804cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 36/84] fix: evaluating the residuals of a SubProblem keeps its
 outputs

apply_nonlinear of an explicit component caches the outputs in the
residual vector while it runs solve_nonlinear. SubProblem overwrote them
there, which left zeros in its outputs, e.g. in a group with a cycle.
---
 openmdao/components/subproblem.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index ebfb252..f7a9621 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -265,7 +265,6 @@ class SubProblem(Component):
             # update our unknowns from subproblem
             for name in self._sysdata.to_abs_uname:
                 unknowns[name] = prob.root.unknowns[name]
-                resids[name] = prob.root.resids[name]
 
             # if params are really unknowns, they may have changed, so update
             for name in self._unknowns_as_params:
-- 
2.43.0


From c01b78131ede8d30a94ed10381908db760c7dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:40 +0000
Subject: [PATCH 37/84] fix: a failing model leaves a finite differenced system
 as it was

When the model raised an exception within fd_jacobian, the perturbed
input, the results of the perturbed model and the complex step flag
stayed behind.
---
 openmdao/core/system.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 3a96d50..4560442 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -619,6 +619,24 @@ class System(object):
 
         to_prom_name = self._sysdata.to_prom_name
 
+        evaluate = run_model
+
+        def run_model(params, unknowns, resids):
+            # When the model fails, the system is left as it was before.
+            try:
+                evaluate(params, unknowns, resids)
+            except:
+                if p_size:
+                    target_input[idx] = value
+                    if cs == 'cs':
+                        inputs._dat[param_key].imag_val[idx] = 0.0
+                        unknowns._probdata.in_complex_step = False
+                resultvec.vec[:] = cache1
+                if total_derivs:
+                    for val, cache in saved_params:
+                        val[:] = cache
+                raise
+
         # Compute gradient for this param or state.
         for p_name in chain(fd_params, states):
 
@@ -698,6 +716,8 @@ class System(object):
                         run_model(params, unknowns, resids)
                         continue
 
+                    value = target_input[idx]
+
                     # Relative or Absolute step size
                     if fdtype == 'relative':
                         step = target_input[idx] * fdstep
-- 
2.43.0


From 93cbe91fcf530e22b70406431e0d23d8c9aa6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:49 +0000
Subject: [PATCH 38/84] fix: Newton gives its system its derivative options
 back when it fails

---
 openmdao/solvers/newton.py | 139 +++++++++++++++++++------------------
 1 file changed, 70 insertions(+), 69 deletions(-)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index d1a8278..0600832 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -177,81 +177,82 @@ class Newton(NonLinearSolver):
         system.deriv_options.locked = False
         system.deriv_options['type'] = 'user'
 
-        while self.iter_count < maxiter and f_norm > atol and \
-                f_norm/f_norm0 > rtol and u_norm > utol:
-
-            # Linearize Model with partial derivatives
-            system._sys_linearize(params, unknowns, resids, total_derivs=False)
-
-            # Calculate direction to take step
-            arg.vec[:] = -resids.vec
-            with system._dircontext:
-                system.solve_linear(system.dumat, system.drmat,
-                                    [None], mode='fwd', solver=self.ln_solver,
-                                    rel_inputs=self.rel_inputs)
-
-            # Keeping this commented-out line here. This was a brute-force
-            # fix to a problem with subsystem linear solvers being corrupted
-            # by values left in out-of-scope dparams. It's mostly fixed, but
-            # there may be corner cases. If you see something weird, you
-            # could try uncommenting and see if this changes anything (which
-            # it should not.)
-            #system.clear_dparams()
-
-            self.iter_count += 1
-
-            # Allow different alphas for each value so we can keep moving when we
-            # hit a bound.
-            alpha = alpha_scalar*np.ones(len(unknowns.vec))
-
-            # If our step will violate any upper or lower bounds, then reduce
-            # alpha in just that direction so that we only step to that
-            # boundary.
-            alpha = unknowns.distance_along_vector_to_limit(alpha, result)
-
-            # Cache the current norm
-            if ls:
-                base_u[:] = unknowns.vec
-                base_norm = f_norm
-
-            # Apply step that doesn't violate bounds
-            unknowns_cache[:] = unknowns.vec
-            unknowns.vec += alpha*result.vec
-
-            # Metadata update
-            update_local_meta(local_meta, (self.iter_count, 0))
-
-            # Just evaluate (and optionally solve) the model with the new
-            # points
-            if self.options['solve_subsystems']:
-                system.children_solve_nonlinear(local_meta)
-            system.apply_nonlinear(params, unknowns, resids, local_meta)
-
-            self.recorders.record_iteration(system, local_meta)
-
-            f_norm = resids.norm()
-            delta_u = unknowns.vec - unknowns_cache
-            u_norm = np.sqrt(unknowns.inner(delta_u, delta_u))
-            if iprint == 2:
-                self.print_norm(self.print_name, system, self.iter_count,
-                                f_norm, f_norm0, u_norm=u_norm)
-
-            # Line Search to determine how far to step in the Newton direction
-            if ls:
-                f_norm = ls.solve(params, unknowns, resids, system, self,
-                                  alpha_scalar, alpha, base_u, base_norm,
-                                  f_norm, f_norm0, metadata)
-
+        try:
+            while self.iter_count < maxiter and f_norm > atol and \
+                    f_norm/f_norm0 > rtol and u_norm > utol:
+
+                # Linearize Model with partial derivatives
+                system._sys_linearize(params, unknowns, resids, total_derivs=False)
+
+                # Calculate direction to take step
+                arg.vec[:] = -resids.vec
+                with system._dircontext:
+                    system.solve_linear(system.dumat, system.drmat,
+                                        [None], mode='fwd', solver=self.ln_solver,
+                                        rel_inputs=self.rel_inputs)
+
+                # Keeping this commented-out line here. This was a brute-force
+                # fix to a problem with subsystem linear solvers being corrupted
+                # by values left in out-of-scope dparams. It's mostly fixed, but
+                # there may be corner cases. If you see something weird, you
+                # could try uncommenting and see if this changes anything (which
+                # it should not.)
+                #system.clear_dparams()
+
+                self.iter_count += 1
+
+                # Allow different alphas for each value so we can keep moving when we
+                # hit a bound.
+                alpha = alpha_scalar*np.ones(len(unknowns.vec))
+
+                # If our step will violate any upper or lower bounds, then reduce
+                # alpha in just that direction so that we only step to that
+                # boundary.
+                alpha = unknowns.distance_along_vector_to_limit(alpha, result)
+
+                # Cache the current norm
+                if ls:
+                    base_u[:] = unknowns.vec
+                    base_norm = f_norm
+
+                # Apply step that doesn't violate bounds
+                unknowns_cache[:] = unknowns.vec
+                unknowns.vec += alpha*result.vec
+
+                # Metadata update
+                update_local_meta(local_meta, (self.iter_count, 0))
+
+                # Just evaluate (and optionally solve) the model with the new
+                # points
+                if self.options['solve_subsystems']:
+                    system.children_solve_nonlinear(local_meta)
+                system.apply_nonlinear(params, unknowns, resids, local_meta)
+
+                self.recorders.record_iteration(system, local_meta)
+
+                f_norm = resids.norm()
+                delta_u = unknowns.vec - unknowns_cache
+                u_norm = np.sqrt(unknowns.inner(delta_u, delta_u))
+                if iprint == 2:
+                    self.print_norm(self.print_name, system, self.iter_count,
+                                    f_norm, f_norm0, u_norm=u_norm)
+
+                # Line Search to determine how far to step in the Newton direction
+                if ls:
+                    f_norm = ls.solve(params, unknowns, resids, system, self,
+                                      alpha_scalar, alpha, base_u, base_norm,
+                                      f_norm, f_norm0, metadata)
+
+        finally:
+            # Return system's FD status back to what it was
+            system.deriv_options['type'] = save_type
+            system.deriv_options.locked = True
 
         # Final residual print if you only want the last one
         if iprint == 1:
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, u_norm=u_norm)
 
-        # Return system's FD status back to what it was
-        system.deriv_options['type'] = save_type
-        system.deriv_options.locked = True
-
         if self.iter_count >= maxiter or isnan(f_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
-- 
2.43.0


From 94fc7842e91525991460435be884cbd8be539c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:49 +0000
Subject: [PATCH 39/84] fix: total derivatives can be checked silently before
 the first run

---
 openmdao/core/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 863dba3..c96a27d 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2229,7 +2229,8 @@ class Problem(object):
         driver = self.driver
 
         if driver.iter_count < 1:
-            out_stream.write('Executing model to populate unknowns...\n\n')
+            if out_stream is not None:
+                out_stream.write('Executing model to populate unknowns...\n\n')
             self.run_once()
 
         if out_stream is not None:
-- 
2.43.0


From 5e3bf5660cdebdf8fa71faca3c06615be7400b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:49 +0000
Subject: [PATCH 40/84] fix: a failing preconditioner does not change the
 indentation of all later prints

---
 openmdao/solvers/petsc_ksp.py   | 24 +++++++++++++-----------
 openmdao/solvers/scipy_gmres.py | 24 +++++++++++++-----------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/openmdao/solvers/petsc_ksp.py b/openmdao/solvers/petsc_ksp.py
index a7fb410..7d905b0 100644
--- a/openmdao/solvers/petsc_ksp.py
+++ b/openmdao/solvers/petsc_ksp.py
@@ -392,16 +392,18 @@ class PetscKSP(LinearSolver):
         with system._dircontext:
             precon = self.preconditioner
             system._probdata.precon_level += 1
-            if precon.options['iprint'] > 0:
-                precon.print_norm(precon.print_name, system, precon.iter_count, 0,
-                                  0, indent=1, solver='LN', msg='Start Preconditioner')
-
-            system.solve_linear(dumat, drmat, (voi, ), mode=mode,
-                                solver=precon, rel_inputs=self.rel_inputs)
-
-            if precon.options['iprint'] > 0:
-                precon.print_norm(precon.print_name, system, precon.iter_count, 0,
-                                  0, indent=1, solver='LN', msg='End Preconditioner')
-            system._probdata.precon_level -= 1
+            try:
+                if precon.options['iprint'] > 0:
+                    precon.print_norm(precon.print_name, system, precon.iter_count, 0,
+                                      0, indent=1, solver='LN', msg='Start Preconditioner')
+
+                system.solve_linear(dumat, drmat, (voi, ), mode=mode,
+                                    solver=precon, rel_inputs=self.rel_inputs)
+
+                if precon.options['iprint'] > 0:
+                    precon.print_norm(precon.print_name, system, precon.iter_count, 0,
+                                      0, indent=1, solver='LN', msg='End Preconditioner')
+            finally:
+                system._probdata.precon_level -= 1
 
         result.array[:] = sol_vec.vec
diff --git a/openmdao/solvers/scipy_gmres.py b/openmdao/solvers/scipy_gmres.py
index 4a3a954..60af044 100644
--- a/openmdao/solvers/scipy_gmres.py
+++ b/openmdao/solvers/scipy_gmres.py
@@ -216,17 +216,19 @@ class ScipyGMRES(MultLinearSolver):
         with system._dircontext:
             precon = self.preconditioner
             system._probdata.precon_level += 1
-            if precon.options['iprint'] > 0:
-                precon.print_norm(precon.print_name, system, precon.iter_count, 0,
-                                  0, indent=1, solver='LN', msg='Start Preconditioner')
-
-            system.solve_linear(dumat, drmat, (voi, ), mode=mode,
-                                solver=precon)
-
-            if precon.options['iprint'] > 0:
-                precon.print_norm(precon.print_name, system, precon.iter_count, 0,
-                                  0, indent=1, solver='LN', msg='End Preconditioner')
-            system._probdata.precon_level -= 1
+            try:
+                if precon.options['iprint'] > 0:
+                    precon.print_norm(precon.print_name, system, precon.iter_count, 0,
+                                      0, indent=1, solver='LN', msg='Start Preconditioner')
+
+                system.solve_linear(dumat, drmat, (voi, ), mode=mode,
+                                    solver=precon)
+
+                if precon.options['iprint'] > 0:
+                    precon.print_norm(precon.print_name, system, precon.iter_count, 0,
+                                      0, indent=1, solver='LN', msg='End Preconditioner')
+            finally:
+                system._probdata.precon_level -= 1
 
         #print("arg", arg)
         #print("preconditioned arg", sol_vec.vec)
-- 
2.43.0


From d0430a0fb06e73846cc84293bd100927d33cd3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:49 +0000
Subject: [PATCH 41/84] fix: a component that fails while its residuals are
 evaluated keeps its outputs

---
 openmdao/core/component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 85a69f4..6a4d625 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -591,7 +591,11 @@ class Component(System):
         # cache the old values of the unknowns.
         resids.vec[:] = -unknowns.vec
 
-        self._sys_solve_nonlinear(params, unknowns, resids)
+        try:
+            self._sys_solve_nonlinear(params, unknowns, resids)
+        except:
+            unknowns.vec[:] = -resids.vec
+            raise
 
         # Unknowns are restored to the old values too. apply_nonlinear does
         # not change the output vector.
-- 
2.43.0


From 20e1ed2e11bc6026ac58c8c7e5da6019467fa16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 42/84] fix: a finite differenced group leaves all params below
 it as they were

---
 openmdao/core/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 4560442..c411aae 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -590,10 +590,10 @@ class System(object):
             # Running the model changes the params of the systems below. When
             # one of these is finite differenced later, the results are
             # compared with its present outputs, so it needs its present
-            # params.
+            # params. A group in a model leaves all of them as they were.
             saved_params = []
             for sub in self.subsystems(local=True, recurse=True):
-                if sub.deriv_options['type'] != 'user':
+                if self.pathname or sub.deriv_options['type'] != 'user':
                     for acc in itervalues(sub.params._dat):
                         if not (acc.pbo or acc.remote):
                             saved_params.append((acc.val, acc.val.copy()))
-- 
2.43.0


From 757c9d8b1a4b55e33c9da45c2abef7e0f6503773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 43/84] fix: a SubProblem is linearized at its present params

---
 openmdao/components/subproblem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index f7a9621..e7222f3 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -304,9 +304,17 @@ class SubProblem(Component):
             prob = self._problem
 
             # set params into the subproblem
+            changed = False
             for name in self._prob_params:
+                if not numpy.array_equal(prob[name], params[name]):
+                    changed = True
                 prob[name] = params[name]
 
+            # the subproblem may have run with other params since, e.g. for
+            # a finite difference.
+            if changed:
+                prob.run()
+
             # have to convert jacobian returned from calc_gradient from a
             # nested dict to a flat dict with tuple keys.
             return _jac_to_flat_dict(prob.calc_gradient(self.params.keys(),
-- 
2.43.0


From 52f3c71fec268633e7d0d1bc560f31610804ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:25 +0000
Subject: [PATCH 44/84] fix: a component that fails while its residuals are
 evaluated keeps its residuals

---
 openmdao/core/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 6a4d625..7e8be07 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -589,12 +589,14 @@ class Component(System):
 
         # Since explicit comps don't put anything in resids, we can use it to
         # cache the old values of the unknowns.
+        old_resids = resids.vec.copy()
         resids.vec[:] = -unknowns.vec
 
         try:
             self._sys_solve_nonlinear(params, unknowns, resids)
         except:
             unknowns.vec[:] = -resids.vec
+            resids.vec[:] = old_resids
             raise
 
         # Unknowns are restored to the old values too. apply_nonlinear does
-- 
2.43.0


From 5e24c689b3e8040f26d7031fe7cdabaf21dbae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:34 +0000
Subject: [PATCH 45/84] fix: a complex step of a component keeps its residuals

---
 openmdao/core/component.py | 70 +++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 7e8be07..a12104c 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -915,50 +915,56 @@ class Component(System):
         if fd_states is not None:
             states = fd_states
 
-        # Compute gradient for this param or state.
-        for p_name in chain(fd_params, states):
+        # Evaluating the residuals writes to the residual vector.
+        old_resids = resids.vec.copy()
 
+        try:
+            # Compute gradient for this param or state.
+            for p_name in chain(fd_params, states):
 
-            # States are stepped in unknowns, not params
-            if p_name in states:
-                stepvec = csunknowns
-                target_input = unknowns._dat[p_name].val
-            else:
-                stepvec = csparams
-                target_input = params._dat[p_name].val
+                # States are stepped in unknowns, not params
+                if p_name in states:
+                    stepvec = csunknowns
+                    target_input = unknowns._dat[p_name].val
+                else:
+                    stepvec = csparams
+                    target_input = params._dat[p_name].val
 
-            stepvec.set_complex_var(p_name)
+                stepvec.set_complex_var(p_name)
 
-            # promoted names and _init_params_dict keys are same
-            mydict = self._init_params_dict.get(p_name, {})
+                # promoted names and _init_params_dict keys are same
+                mydict = self._init_params_dict.get(p_name, {})
 
-            # Local settings for this var trump all
-            fdstep = mydict.get('step_size', step_size)
+                # Local settings for this var trump all
+                fdstep = mydict.get('step_size', step_size)
 
-            # Size our Inputs
-            p_size = np.size(target_input)
-            p_idxs = range(p_size)
+                # Size our Inputs
+                p_size = np.size(target_input)
+                p_idxs = range(p_size)
 
-            # Size our Outputs
-            for u_name in fd_unknowns:
-                u_size = np.size(unknowns[u_name])
-                jac[u_name, p_name] = np.zeros((u_size, p_size))
+                # Size our Outputs
+                for u_name in fd_unknowns:
+                    u_size = np.size(unknowns[u_name])
+                    jac[u_name, p_name] = np.zeros((u_size, p_size))
 
-            # apply Complex Step on each index in array
-            for j, idx in enumerate(p_idxs):
+                # apply Complex Step on each index in array
+                for j, idx in enumerate(p_idxs):
 
-                stepvec.step_complex(idx, fdstep)
-                self._sys_apply_nonlinear(csparams, csunknowns, csresids)
+                    stepvec.step_complex(idx, fdstep)
+                    self._sys_apply_nonlinear(csparams, csunknowns, csresids)
 
-                stepvec.step_complex(idx, -fdstep)
+                    stepvec.step_complex(idx, -fdstep)
 
-                for u_name in fd_unknowns:
-                    result = resultvec.flat(u_name)
-                    jac[u_name, p_name][:, j] = result.imag/fdstep
+                    for u_name in fd_unknowns:
+                        result = resultvec.flat(u_name)
+                        jac[u_name, p_name][:, j] = result.imag/fdstep
+
+                # Need to clear this out because our next input might be a
+                # different vector (state vs param)
+                stepvec.set_complex_var(None)
 
-            # Need to clear this out because our next input might be a
-            # different vector (state vs param)
-            stepvec.set_complex_var(None)
+        finally:
+            resids.vec[:] = old_resids
 
         return jac
 
-- 
2.43.0


From bfaedb5f2cfa910b72d2f6920fd8c9ae22b8881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:34 +0000
Subject: [PATCH 46/84] fix: a derivative check compares with the component's
 own settings

With global options for the check, the derivatives of a component that
has numerical ones were computed with these options as well, so that the
check compared a jacobian with itself, or failed for complex step.
---
 openmdao/core/problem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c96a27d..3ca9a5c 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2181,8 +2181,7 @@ class Problem(object):
                 else:
                     fd_func = comp.fd_jacobian
 
-                jac_fd2 = fd_func(params, unknowns, resids,
-                                  option_overrides=global_options)
+                jac_fd2 = fd_func(params, unknowns, resids)
 
             # Assemble and Return all metrics.
             _assemble_deriv_data(chain(dparams, states), resids, data[cname],
-- 
2.43.0


From d071a6bc63abfe3c79d49adce90876da7505b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:45 +0000
Subject: [PATCH 47/84] fix: a finite differenced group may contain a group
 with an IndepVarComp

---
 openmdao/core/group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index c71f5a4..4ba1f0d 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -615,7 +615,10 @@ class Group(System):
                     scname = src.rsplit('.', 1)[0]
                     if mypath == scname[:mplen]:
                         src_comp = self.find_subsystem(scname[mplen:])
-                        if isinstance(src_comp, IndepVarComp):
+                        # the params of a group below that it sets itself are
+                        # no params of this group.
+                        if isinstance(src_comp, IndepVarComp) and \
+                                (not mypath or tgt[mplen:] in self.params._dat):
                             params.append(tgt[mplen:])
                     else:
                         scoped_tgt = tgt[mplen:]
-- 
2.43.0


From 2281779657b6dc7e856b88b193ef7c2961691c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:15 +0000
Subject: [PATCH 48/84] fix: Newton's linear solve does not see derivatives
 left by a solver above

Inputs from outside of a system keep the values of the last linear solve
of a system above in their derivative vectors. The linear operator of
the system included them when a component has no inputs from inside, and
when the solver is LinearGaussSeidel or has a preconditioner, so that
Newton took wrong steps depending on what had been solved before.
---
 openmdao/solvers/newton.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 0600832..8479298 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -4,6 +4,8 @@ from math import isnan
 
 import numpy as np
 
+from six import itervalues
+
 from openmdao.core.system import AnalysisError
 from openmdao.solvers.solver_base import error_wrap_nl, NonLinearSolver
 from openmdao.util.record_util import update_local_meta, create_local_meta
@@ -172,6 +174,16 @@ class Newton(NonLinearSolver):
         result = system.dumat[None]
         u_norm = 1.0e99
 
+        # A linear solve of a system above may have left values in the params
+        # that come from outside of this one, which the linear solver here
+        # would take for a part of its right hand side.
+        if self.rel_inputs is not None:
+            for sub in system.subsystems(local=True, recurse=True,
+                                         include_self=True):
+                for acc in itervalues(sub.dpmat[None]._dat):
+                    if not (acc.pbo or acc.remote):
+                        acc.val[:] = 0.0
+
         # Can't have the system trying to FD itself when it also contains Newton.
         save_type = system.deriv_options['type']
         system.deriv_options.locked = False
-- 
2.43.0


From 439ef855de6a0890987db0c7d9f9c487068392f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 49/84] fix: a new setup forgets which variables recorders
 asked for before

---
 openmdao/recorders/recording_manager.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/openmdao/recorders/recording_manager.py b/openmdao/recorders/recording_manager.py
index 19fa721..1e3314d 100644
--- a/openmdao/recorders/recording_manager.py
+++ b/openmdao/recorders/recording_manager.py
@@ -6,7 +6,7 @@ import itertools
 import time
 import traceback
 
-from six import iteritems
+from six import itervalues
 
 from openmdao.core.mpi_wrap import MPI, debug
 
@@ -73,18 +73,24 @@ class RecordingManager(object):
            System containing variables.
         """
         pathname = root.pathname
-        if MPI and root.is_active():
-            rrank = root.comm.rank
-            rowned = root._owning_ranks
+
+        # forget the variables that were requested in a previous setup
+        for names in itervalues(self._vars_to_record):
+            names.clear()
 
         self._record_p = self._record_u = self._record_r = False
+        self._has_serial_recorders = any(not r._parallel for r in self._recorders)
+
+        if MPI:
+            if not root.is_active():
+                return  # nothing runs here, so nothing will be recorded
+
+            rrank = root.comm.rank
+            rowned = root._owning_ranks
 
         for recorder in self._recorders:
             recorder.startup(root)
 
-            if not recorder._parallel:
-                self._has_serial_recorders = True
-
             pnames = recorder._filtered[pathname]['p']
             unames = recorder._filtered[pathname]['u']
             rnames = recorder._filtered[pathname]['r']
-- 
2.43.0


From d677927d7491f428475ff81b141c8d89b3de7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:12 +0000
Subject: [PATCH 50/84] fix: under MPI, a parallel recorder records the local
 values next to a serial recorder

---
 openmdao/recorders/recording_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openmdao/recorders/recording_manager.py b/openmdao/recorders/recording_manager.py
index 1e3314d..34f8b97 100644
--- a/openmdao/recorders/recording_manager.py
+++ b/openmdao/recorders/recording_manager.py
@@ -211,6 +211,11 @@ class RecordingManager(object):
             unknowns = {u: unknowns[u] for u in unames}
             resids = {r: resids[r] for r in rnames}
 
+            # parallel recorders record what this process owns
+            for recorder in self._recorders:
+                if recorder._parallel:
+                    recorder.record_iteration(params, unknowns, resids, metadata)
+
             if self._has_serial_recorders:
                 params = self._gather_vars(root, params) if self._record_p else {}
                 unknowns = self._gather_vars(root, unknowns) if self._record_u else {}
@@ -235,7 +240,7 @@ class RecordingManager(object):
             if params is None: # dummy cases have None in place of params, etc.
                 continue
             for recorder in self._recorders:
-                if recorder._parallel or MPI is None or self.rank == 0:
+                if not MPI or (self.rank == 0 and not recorder._parallel):
                     recorder.record_iteration(params, unknowns, resids, meta)
 
     def record_derivatives(self, derivs, metadata):
-- 
2.43.0


From 27bd88e5b0269cb7c3baa9a948786b913acb0ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:12 +0000
Subject: [PATCH 51/84] fix: the iteration coordinate of a nested group's
 solver names the group once

---
 openmdao/solvers/backtracking.py    | 2 +-
 openmdao/solvers/brent.py           | 2 +-
 openmdao/solvers/newton.py          | 2 +-
 openmdao/solvers/nl_gauss_seidel.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index 6a664f0..3d72553 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -101,7 +101,7 @@ class BackTracking(LineSearch):
         c = self.options['c']
         iprint = self.options['iprint']
         result = system.dumat[None]
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
 
         itercount = 0
         ls_alpha = alpha_scalar
diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index d443ffc..44327c0 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -142,7 +142,7 @@ class Brent(NonLinearSolver):
         """
         self.sys = system
         self.metadata = metadata
-        self.local_meta = create_local_meta(self.metadata, self.sys.pathname)
+        self.local_meta = create_local_meta(self.metadata, self.sys.name)
         self.sys.ln_solver.local_meta = self.local_meta
         idx = self.options['state_var_idx']
 
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 8479298..f728f86 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -149,7 +149,7 @@ class Newton(NonLinearSolver):
 
         # Metadata setup
         self.iter_count = 0
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         if self.ln_solver:
             self.ln_solver.local_meta = local_meta
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index c956852..8d5468f 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -107,7 +107,7 @@ class NLGaussSeidel(NonLinearSolver):
         self.iter_count = 1
 
         # Metadata setup
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count,))
 
-- 
2.43.0


From f8dea5d3a17622a22a92327a3eb29c0a7cd6db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:23 +0000
Subject: [PATCH 52/84] fix: a recorder knows which system's iteration it
 records

---
 openmdao/recorders/base_recorder.py     |  6 ++++++
 openmdao/recorders/recording_manager.py | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/openmdao/recorders/base_recorder.py b/openmdao/recorders/base_recorder.py
index 77ba1df..c01a342 100644
--- a/openmdao/recorders/base_recorder.py
+++ b/openmdao/recorders/base_recorder.py
@@ -55,6 +55,10 @@ class BaseRecorder(object):
         self._parallel = False
 
         self._filtered = {}
+
+        # Pathname of the system whose iteration is being recorded. None if
+        # it has to be taken from the iteration coordinate.
+        self._pathname = None
         # TODO: System specific includes/excludes
 
     def startup(self, group):
@@ -108,6 +112,8 @@ class BaseRecorder(object):
         Converts an iteration coordinate to key to index
         `_filtered` to retrieve names of variables to be recorded.
         '''
+        if self._pathname is not None:
+            return self._pathname
         return '.'.join(iteration_coordinate[5::2])
 
     def _filter_vector(self, vecwrapper, key, iteration_coordinate):
diff --git a/openmdao/recorders/recording_manager.py b/openmdao/recorders/recording_manager.py
index 34f8b97..8e1d559 100644
--- a/openmdao/recorders/recording_manager.py
+++ b/openmdao/recorders/recording_manager.py
@@ -155,6 +155,16 @@ class RecordingManager(object):
 
         return params, unknowns, resids
 
+    def _record(self, recorder, root, params, unknowns, resids, metadata):
+        """ Have a recorder record an iteration of `root`. The coordinate of
+        an iteration does not always tell which system it belongs to, e.g.,
+        when a solver is called while its system is finite differenced."""
+        recorder._pathname = root.pathname
+        try:
+            recorder.record_iteration(params, unknowns, resids, metadata)
+        finally:
+            recorder._pathname = None
+
     def record_completed_case(self, root, case):
         """Record the variables in the given case."""
         if not self._recorders:
@@ -163,7 +173,7 @@ class RecordingManager(object):
         case['meta']['timestamp'] = time.time()
 
         for recorder in self._recorders:
-            recorder.record_iteration(case['p'], case['u'], case['r'], case['meta'])
+            self._record(recorder, root, case['p'], case['u'], case['r'], case['meta'])
 
     def record_iteration(self, root, metadata, dummy=False):
         """ Gathers variables for non-parallel case recorders and calls
@@ -214,7 +224,7 @@ class RecordingManager(object):
             # parallel recorders record what this process owns
             for recorder in self._recorders:
                 if recorder._parallel:
-                    recorder.record_iteration(params, unknowns, resids, metadata)
+                    self._record(recorder, root, params, unknowns, resids, metadata)
 
             if self._has_serial_recorders:
                 params = self._gather_vars(root, params) if self._record_p else {}
@@ -241,7 +251,7 @@ class RecordingManager(object):
                 continue
             for recorder in self._recorders:
                 if not MPI or (self.rank == 0 and not recorder._parallel):
-                    recorder.record_iteration(params, unknowns, resids, meta)
+                    self._record(recorder, root, params, unknowns, resids, meta)
 
     def record_derivatives(self, derivs, metadata):
         """" Records derivatives if requested.
-- 
2.43.0


From 13d6d555d489edf9e0087c12fb592317dab8b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:11 +0000
Subject: [PATCH 53/84] fix: case readers provide the recorded metadata of
 parameters and unknowns

---
 openmdao/recorders/hdf5_reader.py   | 12 ++++++------
 openmdao/recorders/sqlite_reader.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index aeacef7..09ac5f6 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -68,14 +68,14 @@ class HDF5CaseReader(CaseReaderBase):
         """ Load the metadata and iteration keys from the given file. """
         if self.format_version in (3, 4):
             with h5py.File(self.filename, 'r') as f:
-                self._parameters = f['metadata'].get('Parameters', None)
-                self._unknowns = f['metadata'].get('Unknowns', None)
+                self.parameters = f['metadata'].get('Parameters', None)
+                self.unknowns = f['metadata'].get('Unknowns', None)
 
-                if isinstance(self._parameters, h5py.Group):
-                    self._parameters = _group_to_dict(self._parameters)
+                if isinstance(self.parameters, h5py.Group):
+                    self.parameters = _group_to_dict(self.parameters)
 
-                if isinstance(self._unknowns, h5py.Group):
-                    self._unknowns = _group_to_dict(self._unknowns)
+                if isinstance(self.unknowns, h5py.Group):
+                    self.unknowns = _group_to_dict(self.unknowns)
 
                 self._case_keys = tuple([key for key in f.keys()
                                          if key != 'metadata'])
diff --git a/openmdao/recorders/sqlite_reader.py b/openmdao/recorders/sqlite_reader.py
index 05eb986..27b69fb 100644
--- a/openmdao/recorders/sqlite_reader.py
+++ b/openmdao/recorders/sqlite_reader.py
@@ -48,8 +48,8 @@ class SqliteCaseReader(CaseReaderBase):
         if self.format_version in (3, 4):
             # Read the metadata and save it in the reader
             with SqliteDict(self.filename, 'metadata', flag='r') as db:
-                self._parameters = db.get('Parameters', None)
-                self._unknowns = db.get('Unknowns', None)
+                self.parameters = db.get('Parameters', None)
+                self.unknowns = db.get('Unknowns', None)
 
             # Store the identifier for each iteration in _case_keys
             with SqliteDict(self.filename, 'iterations', flag='r') as db:
-- 
2.43.0


From a285b658823bce830910851613c6016754a9d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:11 +0000
Subject: [PATCH 54/84] fix: case readers provide the recorded derivatives,
 success and message of a case

---
 openmdao/recorders/hdf5_reader.py   | 3 +++
 openmdao/recorders/sqlite_reader.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index 09ac5f6..228be52 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -105,4 +105,7 @@ class HDF5CaseReader(CaseReaderBase):
 
         with h5py.File(self.filename, 'r') as f:
             case_dict = _group_to_dict(f[_case_id])
+            for name in ('timestamp', 'success', 'msg'):
+                case_dict[name] = f[_case_id].attrs.get(name)
+            case_dict['Derivatives'] = case_dict.pop('Derivs', {}).get('Derivatives')
             return Case(self.filename, _case_id, case_dict)
diff --git a/openmdao/recorders/sqlite_reader.py b/openmdao/recorders/sqlite_reader.py
index 27b69fb..6560b6f 100644
--- a/openmdao/recorders/sqlite_reader.py
+++ b/openmdao/recorders/sqlite_reader.py
@@ -90,6 +90,6 @@ class SqliteCaseReader(CaseReaderBase):
                 pass
             else:
                 if _case_id in derivs_db:
-                    case._derivs = derivs_db[_case_id].get('Derivatives', None)
+                    case.derivs = derivs_db[_case_id].get('Derivatives', None)
 
         return case
-- 
2.43.0


From 16f4b1f8b9c3d9b590326c7f1a02781cc0809f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:11 +0000
Subject: [PATCH 55/84] fix: an HDF5Recorder can record an iteration,
 derivatives and metadata again

---
 openmdao/recorders/hdf5_recorder.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index 1a85744..282b1a4 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -17,6 +17,12 @@ from openmdao.devtools.partition_tree_n2 import get_model_viewer_data
 
 format_version = 4
 
+def _replace_group(parent, name):
+    """ Returns a new, empty group that replaces any former one."""
+    if name in parent:
+        del parent[name]
+    return parent.create_group(name)
+
 class HDF5Recorder(BaseRecorder):
     """
     A recorder that stores data using HDF5. This format naturally handles
@@ -70,6 +76,11 @@ class HDF5Recorder(BaseRecorder):
 
         metadata_group = self.out['metadata']
 
+        # Replace what a previous setup recorded
+        for name in ('system_metadata', 'model_viewer_data'):
+            if name in metadata_group:
+                del metadata_group[name]
+
         # The group metadata could be anything so need to pickle it
         # There are other ways of storing any kind of Python object in HDF5 but this is the simplest
         system_metadata_val = np.array(pickle.dumps(group.metadata, pickle.HIGHEST_PROTOCOL))
@@ -81,8 +92,8 @@ class HDF5Recorder(BaseRecorder):
         metadata_group.create_dataset('model_viewer_data', data=model_viewer_data_val)
 
         pairings = (
-            (metadata_group.create_group("Parameters"), params),
-            (metadata_group.create_group("Unknowns"), unknowns),
+            (_replace_group(metadata_group, "Parameters"), params),
+            (_replace_group(metadata_group, "Unknowns"), unknowns),
         )
 
         for grp, data in pairings:
@@ -132,17 +143,17 @@ class HDF5Recorder(BaseRecorder):
         pairings = []
 
         if self.options['record_params']:
-            p_group = group.create_group("Parameters")
+            p_group = _replace_group(group, "Parameters")
             pairings.append((p_group, self._filter_vector(params, 'p',
                                                           iteration_coordinate)))
 
         if self.options['record_unknowns']:
-            u_group = group.create_group("Unknowns")
+            u_group = _replace_group(group, "Unknowns")
             pairings.append((u_group, self._filter_vector(unknowns, 'u',
                                                           iteration_coordinate)))
 
         if self.options['record_resids']:
-            r_group = group.create_group("Residuals")
+            r_group = _replace_group(group, "Residuals")
             pairings.append((r_group, self._filter_vector(resids, 'r',
                                                           iteration_coordinate)))
 
@@ -172,10 +183,10 @@ class HDF5Recorder(BaseRecorder):
         group_name = format_iteration_coordinate(iteration_coordinate)
 
         # get the group for the iteration
-        iteration_group = self.out[group_name]
+        iteration_group = self.out.require_group(group_name)
 
         # Create a group under that called 'deriv'
-        deriv_group = iteration_group.require_group('Derivs')
+        deriv_group = _replace_group(iteration_group, 'Derivs')
 
         # Then add timestamp, success, msg as attributes
         deriv_group.attrs['timestamp'] = metadata['timestamp']
-- 
2.43.0


From f3b7be9b31b401d6ad66b611d3510c66957385ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:11 +0000
Subject: [PATCH 56/84] fix: HDF5CaseReader lists the cases in the order in
 which they were recorded

---
 openmdao/recorders/hdf5_reader.py   | 8 ++++++--
 openmdao/recorders/hdf5_recorder.py | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index 228be52..ef7e312 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -77,8 +77,12 @@ class HDF5CaseReader(CaseReaderBase):
                 if isinstance(self.unknowns, h5py.Group):
                     self.unknowns = _group_to_dict(self.unknowns)
 
-                self._case_keys = tuple([key for key in f.keys()
-                                         if key != 'metadata'])
+                # Groups without a timestamp hold no iteration. HDF5 lists
+                # groups by name, the cases are in the order of recording.
+                keys = [key for key in f.keys()
+                        if key != 'metadata' and 'timestamp' in f[key].attrs]
+                keys.sort(key=lambda key: f[key].attrs.get('order', 0))
+                self._case_keys = tuple(keys)
         else:
             raise ValueError('HDF5CaseReader encountered an unhandled '
                              'format version: {0}'.format(self.format_version))
diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index 282b1a4..ccc28fe 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -57,6 +57,8 @@ class HDF5Recorder(BaseRecorder):
         super(HDF5Recorder, self).__init__()
         self.out = File(out, 'w', **driver_kwargs)
 
+        self._num_iterations = 0
+
         metadata_group = self.out.require_group('metadata')
 
         metadata_group.create_dataset('format_version', data = format_version)
@@ -140,6 +142,10 @@ class HDF5Recorder(BaseRecorder):
         group.attrs['success'] = metadata['success']
         group.attrs['msg'] = metadata['msg']
 
+        # groups are listed by name, so keep the order of the iterations
+        self._num_iterations += 1
+        group.attrs['order'] = self._num_iterations
+
         pairings = []
 
         if self.options['record_params']:
-- 
2.43.0


From b5114f393b92b981c2e426a43b105a0056d3f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:11 +0000
Subject: [PATCH 57/84] fix: HDF5Recorder writes each iteration to the file
 when it is recorded

---
 openmdao/recorders/hdf5_recorder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index ccc28fe..263a4c9 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -173,6 +173,9 @@ class HDF5Recorder(BaseRecorder):
                     msg = "HDF5 Recorder does not support data of type '{0}'".format(type(val))
                     raise NotImplementedError(msg)
 
+        # Flush once per iteration, so that it survives the end of the process
+        self.out.flush()
+
     def record_derivatives(self, derivs, metadata):
         """Writes the derivatives that were calculated for the driver.
 
@@ -212,3 +215,5 @@ class HDF5Recorder(BaseRecorder):
                     g.create_dataset(k2,data=v2)
         else:
             raise ValueError("Currently can only record derivatives that are ndarrays or OrderedDicts")
+
+        self.out.flush()
-- 
2.43.0


From 8c21a1b1282350cf484f0529e384ba31ca3ed74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:11 +0000
Subject: [PATCH 58/84] fix: DumpRecorder says whether an iteration succeeded

---
 openmdao/recorders/dump_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/dump_recorder.py b/openmdao/recorders/dump_recorder.py
index 49167f4..7274852 100644
--- a/openmdao/recorders/dump_recorder.py
+++ b/openmdao/recorders/dump_recorder.py
@@ -158,7 +158,7 @@ class DumpRecorder(BaseRecorder):
         if latest iteration didn't succeed.
         """
         self.out.write("Iteration succeeded: %s\n" %
-                           'yes' if metadata['success'] else 'no')
+                           ('yes' if metadata['success'] else 'no'))
         if not metadata['success']:
             self.out.write("Error msg: %s\n" % metadata['msg'])
 
-- 
2.43.0


From 4b30811004ec5273f204f9e0b5fdb1b3d44db1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:11 +0000
Subject: [PATCH 59/84] fix: DumpRecorder adds the rank to the name of the
 file, not of a directory

---
 openmdao/recorders/dump_recorder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/recorders/dump_recorder.py b/openmdao/recorders/dump_recorder.py
index 7274852..9db8511 100644
--- a/openmdao/recorders/dump_recorder.py
+++ b/openmdao/recorders/dump_recorder.py
@@ -1,6 +1,7 @@
 """ Class definition for DumpRecorder, a recorder that prints
 human-readable text output to a stream."""
 
+import os
 import sys
 
 from six import string_types, iteritems
@@ -64,10 +65,9 @@ class DumpRecorder(BaseRecorder):
             else:
                 # Dump to separate file for each process if we are under MPI
                 if MPI:
-                    if '.' in out:
-                        parts = out.split('.')
-                        parts[-2] += '_' + str(MPI.COMM_WORLD.rank)
-                        out = '.'.join(parts)
+                    base, ext = os.path.splitext(out)
+                    if ext:
+                        out = base + '_' + str(MPI.COMM_WORLD.rank) + ext
                     else:
                         out += str(MPI.COMM_WORLD.rank)
 
-- 
2.43.0


From 99dc40fb59b2ca17c1c46d07cbe90299b01e3160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:16 +0000
Subject: [PATCH 60/84] fix: an HDF5 iteration that is recorded again holds
 only what is selected now

---
 openmdao/recorders/hdf5_recorder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index 263a4c9..0b7a38c 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -146,20 +146,25 @@ class HDF5Recorder(BaseRecorder):
         self._num_iterations += 1
         group.attrs['order'] = self._num_iterations
 
+        # what the iteration held before, if it is recorded again
+        for name in ("Parameters", "Unknowns", "Residuals"):
+            if name in group:
+                del group[name]
+
         pairings = []
 
         if self.options['record_params']:
-            p_group = _replace_group(group, "Parameters")
+            p_group = group.create_group("Parameters")
             pairings.append((p_group, self._filter_vector(params, 'p',
                                                           iteration_coordinate)))
 
         if self.options['record_unknowns']:
-            u_group = _replace_group(group, "Unknowns")
+            u_group = group.create_group("Unknowns")
             pairings.append((u_group, self._filter_vector(unknowns, 'u',
                                                           iteration_coordinate)))
 
         if self.options['record_resids']:
-            r_group = _replace_group(group, "Residuals")
+            r_group = group.create_group("Residuals")
             pairings.append((r_group, self._filter_vector(resids, 'r',
                                                           iteration_coordinate)))
 
-- 
2.43.0


From 43ac12b8b6cbab1acc245e10ea4afce49bf2dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:52 +0000
Subject: [PATCH 61/84] fix: the indices of a design variable refer to the
 flattened variable

---
 openmdao/core/driver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 6a0d3ea..9c99332 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -514,7 +514,10 @@ class Driver(object):
             idx = meta.get('indices')
 
         if idx is not None:
-            self.root.unknowns[name][idx] = value
+            val = self.root.unknowns[name]
+            if isinstance(val, np.ndarray):
+                val = val.flat # indices are into the flattened variable
+            val[idx] = value
         else:
             self.root.unknowns[name] = value
 
-- 
2.43.0


From b00b79e659b44857c8d1368bee646e970685ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 62/84] fix: rows of a CsvRecorder are in the order of its
 header

---
 openmdao/recorders/csv_recorder.py | 33 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/openmdao/recorders/csv_recorder.py b/openmdao/recorders/csv_recorder.py
index 76b7448..0cc8082 100644
--- a/openmdao/recorders/csv_recorder.py
+++ b/openmdao/recorders/csv_recorder.py
@@ -5,7 +5,7 @@ import numpy
 import sys
 import warnings
 
-from six import string_types, itervalues
+from six import string_types
 
 from openmdao.recorders.base_recorder import BaseRecorder
 
@@ -61,7 +61,8 @@ class CsvRecorder(BaseRecorder):
         warnings.simplefilter('ignore', DeprecationWarning)
 
         self.options['record_metadata'] = False
-        self._wrote_header = False
+        self._selection = None # what the last header was written for
+        self._columns = None # the names in it, for each kind of variable
         self._parallel = False
         self.ncol = 0
 
@@ -119,29 +120,29 @@ class CsvRecorder(BaseRecorder):
         else:
             resids = None
 
-        if self._wrote_header is False:
+        sections = [vals for vals in (params, unknowns, resids) if vals is not None]
+
+        # The columns stay in the order of the header, as a new setup may
+        # change the order of the variables.
+        columns = self._columns
+        selection = [sorted(vals) for vals in sections], self.options['record_derivs']
+        if selection != self._selection:
+            self._selection = selection
+            columns = self._columns = [list(vals) for vals in sections]
+
             header = ['success'] # add column for success flag
-            if params is not None:
-                header.extend(params)
-            if unknowns is not None:
-                header.extend(unknowns)
-            if resids is not None:
-                header.extend(resids)
+            for names in columns:
+                header.extend(names)
             if self.options['record_derivs']:
                 header.append('Derivatives')
 
             self.ncol = len(header)
             self.writer.writerow(header)
-            self._wrote_header = True
 
         row = [metadata['success']] # add column for success flag
 
-        if params is not None:
-            row.extend(serialize(value) for value in itervalues(params))
-        if unknowns is not None:
-            row.extend(serialize(value) for value in itervalues(unknowns))
-        if resids is not None:
-            row.extend(serialize(value) for value in itervalues(resids))
+        for names, vals in zip(columns, sections):
+            row.extend(serialize(vals[name]) for name in names)
         if self.options['record_derivs']:
             row.append(None)
 
-- 
2.43.0


From 4bca05aeed14e97a5db7bec9086f0a6232cad78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 63/84] fix: HDF5Recorder writes metadata to the file when it
 is recorded

---
 openmdao/recorders/hdf5_recorder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index 0b7a38c..8ebd88b 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -62,6 +62,7 @@ class HDF5Recorder(BaseRecorder):
         metadata_group = self.out.require_group('metadata')
 
         metadata_group.create_dataset('format_version', data = format_version)
+        self.out.flush()
 
     def record_metadata(self, group):
         """Stores the metadata of the given group in a HDF5 file using
@@ -112,6 +113,8 @@ class HDF5Recorder(BaseRecorder):
                     #    msg = "HDF5 Recorder does not support data of type '{0}'".format(type(val))
                     #    raise NotImplementedError(msg)
 
+        self.out.flush()
+
     def record_iteration(self, params, unknowns, resids, metadata):
         """
         Stores the provided data in the HDF5 file using the iteration
-- 
2.43.0


From 4d525d84926fa4e94aaaed21b5cc485909785937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 64/84] fix: nearest neighbour interpolants no longer reshape
 the inputs of their caller

MetaModel passes one array to the surrogates of all its outputs; the reshaped array made the
next surrogate fail or predict something else.
---
 .../surrogate_models/nn_interpolators/linear_interpolator.py  | 4 ++--
 .../surrogate_models/nn_interpolators/rbf_interpolator.py     | 4 ++--
 .../nn_interpolators/weighted_interpolator.py                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
index 9b2b7c4..87090de 100644
--- a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
@@ -54,7 +54,7 @@ class LinearInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
 
@@ -92,7 +92,7 @@ class LinearInterpolator(NNBase):
 
         if len(PredPoints.shape) == 1:
             # Reshape vector to n x 1 array
-            PredPoints.shape = (1, PredPoints.shape[0])
+            PredPoints = PredPoints.reshape((1, PredPoints.shape[0]))
 
         normPredPts = (PredPoints - self._tpm) / self._tpr
         nppts = normPredPts.shape[0]
diff --git a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
index 4f599e4..3120d1b 100644
--- a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
@@ -290,7 +290,7 @@ class RBFInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         nppts = normalized_pts.shape[0]
@@ -317,7 +317,7 @@ class RBFInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         # Setup prediction points and find their radial neighbors
diff --git a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
index da9be5c..bf8c4e7 100644
--- a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
@@ -37,7 +37,7 @@ class WeightedInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         nppts = normalized_pts.shape[0]
@@ -77,7 +77,7 @@ class WeightedInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
 
-- 
2.43.0


From 795560e2e47ce2dd6fe93dd5cfdc8876f1e9af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:17 +0000
Subject: [PATCH 65/84] fix: metamodels keep consistent training data

- several array parameters no longer overwrite each other's columns in the training inputs
- training data only counts once every surrogate has been trained, so that a failed training is
  not added twice by a warm restart
- without samples the outputs are empty too, not those of the last training
- the sample counts of three or more fidelities are taken from the right variables, and a
  MultiFiMetaModel with one fidelity can be restarted warm
---
 openmdao/components/meta_model.py         | 38 +++++++------
 openmdao/components/multifi_meta_model.py | 69 ++++++++++++-----------
 2 files changed, 56 insertions(+), 51 deletions(-)

diff --git a/openmdao/components/meta_model.py b/openmdao/components/meta_model.py
index 671a00e..6d73d30 100644
--- a/openmdao/components/meta_model.py
+++ b/openmdao/components/meta_model.py
@@ -317,8 +317,6 @@ class MetaModel(Component):
             inputs = np.zeros((num_sample, self._input_size))
             new_input = inputs
 
-        self._training_input = inputs
-
         # add training data for each input
         if num_sample > 0:
             idx = 0
@@ -332,24 +330,25 @@ class MetaModel(Component):
                         if not isinstance(v, np.ndarray):
                             v = np.array(v)
                         new_input[row_idx, idx:idx+sz] = v.flat
+                    idx += sz
 
         # add training data for each output
+        training_output = {}
         for name, shape in self._surrogate_output_names:
-            if num_sample > 0:
-                output_size = np.prod(shape)
-
-                if self.warm_restart:
-                    outputs = np.zeros((num_sample + num_old_pts,
-                                        output_size))
-                    if num_old_pts > 0:
-                        outputs[:num_old_pts, :] = self._training_output[name]
-                    self._training_output[name] = outputs
-                    new_output = outputs[num_old_pts:, :]
-                else:
-                    outputs = np.zeros((num_sample, output_size))
-                    self._training_output[name] = outputs
-                    new_output = outputs
+            output_size = np.prod(shape)
+
+            if self.warm_restart:
+                outputs = np.zeros((num_sample + num_old_pts, output_size))
+                if num_old_pts > 0:
+                    outputs[:num_old_pts, :] = self._training_output[name]
+                new_output = outputs[num_old_pts:, :]
+            else:
+                outputs = np.zeros((num_sample, output_size))
+                new_output = outputs
+
+            training_output[name] = outputs
 
+            if num_sample > 0:
                 val = self.params['train:' + name]
 
                 if isinstance(val[0], float):
@@ -362,7 +361,12 @@ class MetaModel(Component):
 
             surrogate = self._init_unknowns_dict[name].get('surrogate')
             if surrogate is not None:
-                surrogate.train(self._training_input, self._training_output[name])
+                surrogate.train(inputs, outputs)
+
+        # the new data only counts once every surrogate has been trained with
+        # it; otherwise a warm restart would add it again.
+        self._training_input = inputs
+        self._training_output.update(training_output)
 
         self.train = False
 
diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index d6bec20..7e326de 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -89,7 +89,9 @@ class MultiFiMetaModel(MetaModel):
         self._nfi = nfi
 
         # generalize MetaModel training inputs to a list of training inputs
-        self._training_input = nfi*[np.zeros(0)]
+        # (a single fidelity uses the arrays of the base class)
+        if nfi > 1:
+            self._training_input = nfi*[np.zeros(0)]
         self._input_sizes = nfi*[0]
 
     def add_param(self, name, val=_NotSet, **kwargs):
@@ -106,7 +108,8 @@ class MultiFiMetaModel(MetaModel):
 
     def add_output(self, name, val=_NotSet, **kwargs):
         super(MultiFiMetaModel, self).add_output(name, val, **kwargs)
-        self._training_output[name]=self._nfi*[np.zeros(0)]
+        if self._nfi > 1:
+            self._training_output[name]=self._nfi*[np.zeros(0)]
 
         # Add train:<outvar>_fi<n>
         for fi in range(self._nfi):
@@ -127,26 +130,26 @@ class MultiFiMetaModel(MetaModel):
         num_sample = self._nfi*[None]
         for name, sz in self._surrogate_param_names:
             for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
+                name_fi = _get_name_fi(name, fi)
+                val = self.params['train:' + name_fi]
                 if num_sample[fi] is None:
                     num_sample[fi] = len(val)
                 elif len(val) != num_sample[fi]:
                     msg = "MetaModel: Each variable must have the same number"\
                           " of training points. Expected {0} but found {1} "\
                           "points for '{2}'."\
-                          .format(num_sample[fi], len(val), name)
+                          .format(num_sample[fi], len(val), name_fi)
                     raise RuntimeError(msg)
 
         for name, shape in self._surrogate_output_names:
             for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
+                name_fi = _get_name_fi(name, fi)
+                val = self.params['train:' + name_fi]
                 if len(val) != num_sample[fi]:
                     msg = "MetaModel: Each variable must have the same number" \
                           " of training points. Expected {0} but found {1} " \
                           "points for '{2}'." \
-                        .format(num_sample[fi], len(val), name)
+                        .format(num_sample[fi], len(val), name_fi)
                     raise RuntimeError(msg)
 
         if self.warm_restart:
@@ -165,15 +168,12 @@ class MultiFiMetaModel(MetaModel):
                       for fi in range(self._nfi)]
             new_inputs = inputs
 
-        self._training_input = inputs
-
         # add training data for each input
         idx = self._nfi*[0]
         for name, sz in self._surrogate_param_names:
             for fi in range(self._nfi):
                 if num_sample[fi] > 0:
-                    name = _get_name_fi(name, fi)
-                    val = self.params['train:' + name]
+                    val = self.params['train:' + _get_name_fi(name, fi)]
                     if isinstance(val[0], float):
                         new_inputs[fi][:, idx[fi]] = val
                         idx[fi] += 1
@@ -182,41 +182,42 @@ class MultiFiMetaModel(MetaModel):
                             if not isinstance(v, np.ndarray):
                                 v = np.array(v)
                             new_inputs[fi][row_idx, idx[fi]:idx[fi]+sz] = v.flat
+                        idx[fi] += sz
 
         # add training data for each output
-        outputs=self._nfi*[None]
-        new_outputs=self._nfi*[None]
+        training_output = {}
         for name, shape in self._surrogate_output_names:
+            output_size = np.prod(shape)
+            training_output[name] = outputs = []
             for fi in range(self._nfi):
-                name_fi = _get_name_fi(name, fi)
-                if num_sample[fi] > 0:
-                    output_size = np.prod(shape)
-                    if self.warm_restart:
-                        outputs[fi] = np.zeros((num_sample[fi] + num_old_pts[fi],
-                                                output_size))
-                        if num_old_pts[fi] > 0:
-                            outputs[fi][:num_old_pts[fi], :] = self._training_output[name][fi]
-                        self._training_output[name][fi] = outputs[fi]
-                        new_outputs[fi] = outputs[fi][num_old_pts[fi]:, :]
-                    else:
-                        outputs[fi] = np.zeros((num_sample[fi], output_size))
-                        self._training_output[name] = []
-                        self._training_output[name].extend(outputs)
-                        new_outputs = outputs
+                if self.warm_restart:
+                    outputs.append(np.zeros((num_sample[fi] + num_old_pts[fi],
+                                             output_size)))
+                    if num_old_pts[fi] > 0:
+                        outputs[fi][:num_old_pts[fi], :] = self._training_output[name][fi]
+                    new_output = outputs[fi][num_old_pts[fi]:, :]
+                else:
+                    outputs.append(np.zeros((num_sample[fi], output_size)))
+                    new_output = outputs[fi]
 
-                    val = self.params['train:' + name_fi]
+                if num_sample[fi] > 0:
+                    val = self.params['train:' + _get_name_fi(name, fi)]
 
                     if isinstance(val[0], float):
-                        new_outputs[fi][:, 0] = val
+                        new_output[:, 0] = val
                     else:
                         for row_idx, v in enumerate(val):
                             if not isinstance(v, np.ndarray):
                                 v = np.array(v)
-                            new_outputs[fi][row_idx, :] = v.flat
+                            new_output[row_idx, :] = v.flat
 
             surrogate = self._init_unknowns_dict[name].get('surrogate')
             if surrogate is not None:
-                surrogate.train_multifi(self._training_input,
-                                        self._training_output[name])
+                surrogate.train_multifi(inputs, outputs)
+
+        # the new data only counts once every surrogate has been trained with
+        # it; otherwise a warm restart would add it again.
+        self._training_input = inputs
+        self._training_output.update(training_output)
 
         self.train = False
-- 
2.43.0


From e41a6f28a513d689ccb57847e4ac8665abf60223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:02 +0000
Subject: [PATCH 66/84] fix: a norm ratio that is not a number is not
 convergence

---
 openmdao/solvers/newton.py          | 4 +++-
 openmdao/solvers/nl_gauss_seidel.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index f728f86..cca2bb5 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -265,7 +265,9 @@ class Newton(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, u_norm=u_norm)
 
-        if self.iter_count >= maxiter or isnan(f_norm):
+        # (nothing compares with a ratio of norms that is not a number)
+        if self.iter_count >= maxiter or isnan(f_norm) or \
+                not (f_norm <= atol or f_norm/f_norm0 <= rtol or u_norm <= utol):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 8d5468f..07bb72a 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -201,7 +201,9 @@ class NLGaussSeidel(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count, normval,
                             basenorm, u_norm=u_norm)
 
-        if self.iter_count >= maxiter or isnan(normval):
+        # (nothing compares with a ratio of norms that is not a number)
+        if self.iter_count >= maxiter or isnan(normval) or \
+                not (normval <= atol or normval/basenorm <= rtol or u_norm <= utol):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
-- 
2.43.0


From 9fcb814281d880fa6fdfa81dc8f4fbf8daf1c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:02 +0000
Subject: [PATCH 67/84] fix: Aitken acceleration starts anew with each solve
 and leaves the last iterate alone

---
 openmdao/solvers/nl_gauss_seidel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 07bb72a..fd38b14 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -103,6 +103,10 @@ class NLGaussSeidel(NonLinearSolver):
         iprint = self.options['iprint']
         unknowns_cache = self.unknowns_cache
 
+        # Aitken acceleration starts anew with each solve
+        self.delta_u_n_1 = 'None'
+        self.aitken_alpha = 1.0
+
         # Initial run
         self.iter_count = 1
 
@@ -162,7 +166,9 @@ class NLGaussSeidel(NonLinearSolver):
             
                 # Use relaxation after second iteration
                 # self.delta_u_n_1 is a string for the first iteration
+                # (the last iterate stays the one whose norm is known)
                 if (type(self.delta_u_n_1) is not str) and \
+                    self.iter_count < maxiter and \
                     normval > atol and \
                     normval/basenorm > rtol  and \
                     u_norm > utol:
-- 
2.43.0


From 76107bcd127ba489857afa59a02464398ec336d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:02 +0000
Subject: [PATCH 68/84] fix: LinearGaussSeidel measures its residual against
 the right hand side

---
 openmdao/solvers/ln_gauss_seidel.py | 45 ++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index b8864ca..fcf5adc 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -5,6 +5,8 @@ from __future__ import print_function
 from six import iteritems, itervalues
 from collections import OrderedDict
 
+import numpy as np
+
 from openmdao.core.system import AnalysisError
 from openmdao.solvers.solver_base import LinearSolver
 
@@ -115,6 +117,14 @@ class LinearGaussSeidel(LinearSolver):
         f_norm0, f_norm = 1.0, 1.0
         self.iter_count = 0
         maxiter = self.options['maxiter']
+        if maxiter > 1:
+            # the initial solution is zero, so the right hand side is the
+            # initial residual.
+            f_norm = self._rhs_norm(system, mode, rhs_mat)
+            if not self.options['atol'] < f_norm < np.inf:
+                f_norm = 1.0
+            f_norm0 = f_norm
+
         while self.iter_count < maxiter and f_norm > self.options['atol'] \
                   and f_norm/f_norm0 > self.options['rtol']:
 
@@ -223,7 +233,11 @@ class LinearGaussSeidel(LinearSolver):
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, indent=1, solver='LN')
 
-        if maxiter > 1 and self.iter_count >= maxiter:
+        # (nothing compares with a norm that is not a number)
+        if maxiter > 1 and \
+                (self.iter_count >= maxiter or
+                 not (f_norm <= self.options['atol'] or
+                      f_norm/f_norm0 <= self.options['rtol'])):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             failed = True
         else:
@@ -241,6 +255,35 @@ class LinearGaussSeidel(LinearSolver):
 
         return sol_buf
 
+    def _rhs_norm(self, system, mode, rhs_mat):
+        """ Computes the norm of the linear residual for a solution of zero.
+
+        Args
+        ----
+        system : `System`
+            Parent `System` object.
+
+        mode : string
+            Derivative mode, can be 'fwd' or 'rev'.
+
+        rhs_mat : dict of ndarray
+            Dictionary containing one ndarray per top level quantity of
+            interest. Each array contains the right-hand side for the linear
+            solve.
+        """
+
+        rhs_vec = system.drmat if mode == 'fwd' else system.dumat
+
+        norm = 0.0
+        for voi, rhs in iteritems(rhs_mat):
+            rhs_vec[voi].vec[:] = rhs
+            norm += rhs_vec[voi].norm()**2
+            if mode != 'fwd':
+                # this one is a part of the solution later
+                rhs_vec[voi].vec[:] = 0.0
+
+        return norm**0.5
+
     def _norm(self, system, mode, rhs_mat):
         """ Computes the norm of the linear residual
 
-- 
2.43.0


From 50ebc41fa04cf55be730a6b496912309600f9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:02 +0000
Subject: [PATCH 69/84] fix: Newton without subsystem solves sees the residuals
 of all components

---
 openmdao/solvers/newton.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index cca2bb5..ee28cd7 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -156,6 +156,14 @@ class Newton(NonLinearSolver):
             system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count, 0))
 
+        # When the subsystems are not solved after each step, all of their
+        # components have a residual, not only those with states or with
+        # inputs that close a cycle.
+        if not self.options['solve_subsystems'] or \
+                (ls and not ls.options['solve_subsystems']):
+            for comp in system.components(recurse=True):
+                comp._run_apply = True
+
         # Perform an initial run to propagate srcs to targets.
         system.children_solve_nonlinear(local_meta)
         system.apply_nonlinear(params, unknowns, resids)
-- 
2.43.0


From 3034edf529ba4948aa0eb6d15c9125b42a621e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:02 +0000
Subject: [PATCH 70/84] fix: apply_nonlinear restores the unknowns exactly

---
 openmdao/core/component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index a12104c..d76c059 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -590,12 +590,13 @@ class Component(System):
         # Since explicit comps don't put anything in resids, we can use it to
         # cache the old values of the unknowns.
         old_resids = resids.vec.copy()
+        old_unknowns = unknowns.vec.copy()
         resids.vec[:] = -unknowns.vec
 
         try:
             self._sys_solve_nonlinear(params, unknowns, resids)
         except:
-            unknowns.vec[:] = -resids.vec
+            unknowns.vec[:] = old_unknowns
             resids.vec[:] = old_resids
             raise
 
@@ -604,6 +605,9 @@ class Component(System):
         resids.vec[:] += unknowns.vec
         unknowns.vec[:] -= resids.vec
 
+        # (what was subtracted may have been too large for that, or not finite)
+        unknowns.vec[:] = old_unknowns
+
     def _sys_solve_nonlinear(self, params, unknowns, resids):
         """
         Runs the component. This wraps solve_nonlinear and performs any
-- 
2.43.0


From 64a2c1db1eee3fc69956b88dc5a6e7f0ca3eb250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:02 +0000
Subject: [PATCH 71/84] fix: Brent tells failure from errors of the model

---
 openmdao/solvers/brent.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 44327c0..a017d15 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -44,7 +44,7 @@ class Brent(NonLinearSolver):
         if given, name of the variable to pull the lower bound value from.This variable must be a parameter on of of the child components of the containing system
     options['var_upper_bound'] :  str('')
         if given, name of the variable to pull the upper bound value from.This variable must be a parameter on of of the child components of the containing system
-    options['xtol'] :  int(0)
+    options['xtol'] :  float(0.0)
         The routine converges when a root is known to lie within xtol of the value return. Should be >= 0. The routine modifies this to take into account the relative precision of doubles.
     """
 
@@ -52,7 +52,7 @@ class Brent(NonLinearSolver):
         super(Brent, self).__init__()
 
         opt = self.options
-        opt.add_option('xtol', 0,
+        opt.add_option('xtol', 0.0,
             desc='The routine converges when a root is known to lie within xtol of the value return. Should be >= 0. '
                  'The routine modifies this to take into account the relative precision of doubles.')
 
@@ -159,7 +159,8 @@ class Brent(NonLinearSolver):
         kwargs = {'maxiter': self.options['maxiter'],
                   'a': lower,
                   'b': upper,
-                  'full_output': False, # False, because we don't use the info, so just wastes operations
+                  'full_output': True,
+                  'disp': False, # no RuntimeError, which our subsystems may raise too
                   'args': (params, unknowns, resids)
                   }
 
@@ -179,14 +180,10 @@ class Brent(NonLinearSolver):
         self.sys.apply_nonlinear(params, unknowns, resids)
         self.basenorm = resid_norm_0 = abs(resids._dat[self.s_var_name].val[idx])
 
-        failed = False
-        try:
-            xstar = brentq(self._eval, **kwargs)
-        except RuntimeError as err:
-            msg = str(err)
-            if 'different signs' in msg:
-                raise
-            failed = True
+        xstar, info = brentq(self._eval, **kwargs)
+        failed = not info.converged
+        if failed:
+            msg = "Failed to converge after %d iterations." % info.iterations
 
         self.sys = None
 
-- 
2.43.0


From 65541fa44b1d93c379d3a4a5088d7896b4729ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 72/84] fix: an external program that is given up is ended,
 even when it ignores SIGTERM

---
 openmdao/components/external_code.py |  3 ++
 openmdao/util/shell_proc.py          | 43 ++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/openmdao/components/external_code.py b/openmdao/components/external_code.py
index 3c801cf..37028a6 100644
--- a/openmdao/components/external_code.py
+++ b/openmdao/components/external_code.py
@@ -209,6 +209,9 @@ class ExternalCode(Component):
         try:
             return_code, error_msg = \
                 self._process.wait(self.options['poll_delay'], self.options['timeout'])
+        except BaseException:
+            self._process.end()
+            raise
         finally:
             self._process.close_files()
             self._process = None
diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 0020943..dbebea2 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -108,14 +108,41 @@ class ShellProc(subprocess.Popen):
             A value of zero implies an infinite maximum wait.
 
         """
-        if sys.platform == 'win32':
-            subprocess.Popen("TASKKILL /F /PID {pid} /T".format(pid=self.pid))
-        else:
-            os.killpg(os.getpgid(self.pid), signal.SIGTERM)
+        # a process that has ended can't be terminated, and its id may be in
+        # use again.
+        if self.poll() is None:
+            if sys.platform == 'win32':
+                subprocess.Popen("TASKKILL /F /PID {pid} /T".format(pid=self.pid))
+            else:
+                os.killpg(os.getpgid(self.pid), signal.SIGTERM)
 
         if timeout is not None:
             return self.wait(timeout=timeout)
 
+    def end(self, grace=5.):
+        """
+        Terminate the process, kill it if it is still there after `grace`
+        seconds, and collect its exit status.
+
+        Args
+        ----
+        grace : float, optional
+            Seconds to wait before the process is killed.
+        """
+        self.terminate()
+        poll_delay = 0.1
+        while self.poll() is None and grace > 0:
+            time.sleep(poll_delay)
+            grace -= poll_delay
+
+        if self.poll() is None:
+            if sys.platform == 'win32':
+                self.kill()
+            else:
+                os.killpg(os.getpgid(self.pid), signal.SIGKILL)
+            while self.poll() is None:
+                time.sleep(poll_delay)
+
     def wait(self, poll_delay=0., timeout=0.):
         """
         Polls for command completion or timeout.
@@ -142,7 +169,7 @@ class ShellProc(subprocess.Popen):
             while return_code is None:
                 npolls -= 1
                 if (timeout > 0) and (npolls < 0):
-                    self.terminate()
+                    self.end()
                     break
                 time.sleep(poll_delay)
                 return_code = self.poll()
@@ -210,7 +237,11 @@ def call(args, stdin=None, stdout=None, stderr=None, env=None,
         A value of zero implies an infinite maximum wait.
     """
     process = ShellProc(args, stdin, stdout, stderr, env)
-    return process.wait(poll_delay, timeout)
+    try:
+        return process.wait(poll_delay, timeout)
+    except BaseException:
+        process.end()
+        raise
 
 
 def check_call(args, stdin=None, stdout=None, stderr=None, env=None,
-- 
2.43.0


From 561a87148e24e4c93bf6de09879ac096b3f23865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 73/84] fix: check_call does not take a time-out for success

---
 openmdao/util/shell_proc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index dbebea2..6e95cf3 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -272,7 +272,10 @@ def check_call(args, stdin=None, stdout=None, stderr=None, env=None,
         Maximum time to wait for command completion.
         A value of zero implies an infinite maximum wait.
     """
-    process = ShellProc(args, stdin, stdout, stderr, env)
-    return_code, error_msg = process.wait(poll_delay, timeout)
+    return_code, error_msg = call(args, stdin, stdout, stderr, env,
+                                  poll_delay, timeout)
+    if return_code is None:
+        # no exit status of its own
+        raise CalledProcessError(-signal.SIGTERM, args, error_msg)
     if return_code:
         raise CalledProcessError(return_code, args, error_msg)
-- 
2.43.0


From 6a4ad3fcf7fa1cb880aaa66ab43cc56d52ce9d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 74/84] fix: a program ended by SIGHUP is reported as such

---
 openmdao/util/shell_proc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 6e95cf3..16f19ff 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -201,7 +201,8 @@ class ShellProc(subprocess.Popen):
                 sig = -return_code
                 if sig < signal.NSIG:
                     for item in signal.__dict__.keys():
-                        if item.startswith('SIG'):
+                        if item.startswith('SIG') and \
+                                not item.startswith('SIG_'):
                             if getattr(signal, item) == sig:
                                 error_msg = ': %s' % item
                                 break
-- 
2.43.0


From d303cc16648356c71b866fc4c67be55d62430f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 75/84] fix: error output that is not text doesn't hide the
 failure of an external program

---
 openmdao/components/external_code.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openmdao/components/external_code.py b/openmdao/components/external_code.py
index 37028a6..64427a7 100644
--- a/openmdao/components/external_code.py
+++ b/openmdao/components/external_code.py
@@ -158,9 +158,10 @@ class ExternalCode(Component):
             elif return_code:
                 if isinstance(self.stderr, str):
                     if os.path.exists(self.stderr):
-                        stderrfile = open(self.stderr, 'r')
-                        error_desc = stderrfile.read()
-                        stderrfile.close()
+                        # whatever the program has written
+                        with open(self.stderr, 'rb') as stderrfile:
+                            error_desc = stderrfile.read().decode('utf-8',
+                                                                  'replace')
                         err_fragment = "\nError Output:\n%s" % error_desc
                     else:
                         err_fragment = "\n[stderr %r missing]" % self.stderr
-- 
2.43.0


From 7e724c1d9c6d102a5835aa1d19fe2587753d4f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 76/84] fix: a system without directory after a new setup
 doesn't go to its old one

---
 openmdao/core/system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index c411aae..28b58e7 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -480,6 +480,7 @@ class System(object):
             self._dircontext = DirContext(self._sysdata.absdir)
         else:
             self._sysdata.absdir = parent_dir
+            self._dircontext = _DummyContext()
 
         if (self.create_dirs and self.is_active() and
                      not os.path.exists(self._sysdata.absdir)):
-- 
2.43.0


From c270278bf70e5c12022464f64a45bed1b3498405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 77/84] fix: apply_nonlinear and apply_linear run in the
 directory of the system

---
 openmdao/core/group.py          |  9 +++++----
 openmdao/core/parallel_group.py | 11 ++++++-----
 openmdao/core/system.py         |  6 ++++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 4ba1f0d..7526993 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -817,10 +817,11 @@ class Group(System):
 
             self._transfer_data(sub.name)
             if sub.is_active():
-                if isinstance(sub, Component):
-                    sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
-                else:
-                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids, metadata)
+                with sub._dircontext:
+                    if isinstance(sub, Component):
+                        sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
+                    else:
+                        sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids, metadata)
 
     def linearize(self, params, unknowns, resids):
         """
diff --git a/openmdao/core/parallel_group.py b/openmdao/core/parallel_group.py
index 464dd2f..c5ae5b5 100644
--- a/openmdao/core/parallel_group.py
+++ b/openmdao/core/parallel_group.py
@@ -70,11 +70,12 @@ class ParallelGroup(Group):
         self._transfer_data()
 
         for sub in self._local_subsystems:
-            if isinstance(sub, Component):
-                sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids)
-            else:
-                sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids,
-                                    metadata)
+            with sub._dircontext:
+                if isinstance(sub, Component):
+                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids)
+                else:
+                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids,
+                                        metadata)
 
     def children_solve_nonlinear(self, metadata):
         """Loops over our children systems and asks them to solve."""
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 28b58e7..32dd2cf 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -897,7 +897,8 @@ class System(object):
                             dparams._rel_inputs = rel_inputs
 
                         try:
-                            self.apply_linear(self.params, self.unknowns, dparams, dunknowns, dresids, mode)
+                            with self._dircontext:
+                                self.apply_linear(self.params, self.unknowns, dparams, dunknowns, dresids, mode)
                         finally:
                             dresids._scale_derivatives()
 
@@ -929,7 +930,8 @@ class System(object):
                     else:
                         dresids._scale_derivatives()
                         try:
-                            self.apply_linear(self.params, self.unknowns, dparams, dunknowns, dresids, mode)
+                            with self._dircontext:
+                                self.apply_linear(self.params, self.unknowns, dparams, dunknowns, dresids, mode)
                         finally:
                             dparams._apply_unit_derivatives(rel_inputs=rel_inputs)
                             dunknowns._scale_derivatives()
-- 
2.43.0


From 401e0e0d0287586c8f8c1976e33377f67586856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 78/84] fix: check_partial_derivatives runs components in their
 directory

---
 openmdao/core/problem.py | 41 +++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 3ca9a5c..da6d9e6 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -25,6 +25,7 @@ from openmdao.core._checks import check_connections, _both_names
 from openmdao.core.driver import Driver
 from openmdao.core.mpi_wrap import MPI, under_mpirun, debug
 from openmdao.core.relevance import Relevance
+from openmdao.util.file_util import DirContext
 
 from openmdao.components.indep_var_comp import IndepVarComp
 from openmdao.solvers.scipy_gmres import ScipyGMRES
@@ -1886,6 +1887,27 @@ class Problem(object):
 
         return None
 
+    def _get_dircontext(self, comp):
+        """
+        Args
+        ----
+        comp : `Component`
+            A component of this problem.
+
+        Returns
+        -------
+        context manager
+            Changes to the directory of the given component, which may be
+            that of one of the systems it is in.
+        """
+        system = self.root
+        context = system._dircontext
+        for name in comp.pathname.split('.'):
+            system = getattr(system, name)
+            if isinstance(system._dircontext, DirContext):
+                context = system._dircontext
+        return context
+
     def check_partial_derivatives(self, out_stream=sys.stdout, comps=None,
                                   compact_print=False, abs_err_tol=1.0E-6,
                                   rel_err_tol=1.0E-6, global_options=None):
@@ -1993,6 +2015,7 @@ class Problem(object):
                 continue
 
             cname = comp.pathname
+            dircontext = self._get_dircontext(comp)
             opt = comp.deriv_options
 
             ch_step_size = opt['check_step_size']
@@ -2120,8 +2143,9 @@ class Problem(object):
                         dresids._dat[u_name].val[idx] = 1.0
                         dresids._scale_derivatives()
                         try:
-                            comp.apply_linear(params, unknowns, dparams,
-                                              dunknowns, dresids, 'rev')
+                            with dircontext:
+                                comp.apply_linear(params, unknowns, dparams,
+                                                  dunknowns, dresids, 'rev')
                         finally:
                             dparams._apply_unit_derivatives()
                             dunknowns._scale_derivatives()
@@ -2147,8 +2171,9 @@ class Problem(object):
                         dinputs._dat[p_name].val[idx] = 1.0
                         dparams._apply_unit_derivatives()
                         dunknowns._scale_derivatives()
-                        comp.apply_linear(params, unknowns, dparams,
-                                          dunknowns, dresids, 'fwd')
+                        with dircontext:
+                            comp.apply_linear(params, unknowns, dparams,
+                                              dunknowns, dresids, 'fwd')
                         dresids._scale_derivatives()
 
                         for u_name, u_val in dresids.vec_val_iter():
@@ -2165,8 +2190,9 @@ class Problem(object):
             else:
                 fd_func = comp.fd_jacobian
 
-            jac_fd = fd_func(params, unknowns, resids, use_check=True,
-                             option_overrides=global_options)
+            with dircontext:
+                jac_fd = fd_func(params, unknowns, resids, use_check=True,
+                                 option_overrides=global_options)
 
             # Extra Finite Difference if requested. We use the settings in
             # the component for these.
@@ -2181,7 +2207,8 @@ class Problem(object):
                 else:
                     fd_func = comp.fd_jacobian
 
-                jac_fd2 = fd_func(params, unknowns, resids)
+                with dircontext:
+                    jac_fd2 = fd_func(params, unknowns, resids)
 
             # Assemble and Return all metrics.
             _assemble_deriv_data(chain(dparams, states), resids, data[cname],
-- 
2.43.0


From 8ee528d1fe8ff96f920664f62fc73a427d4e50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 79/84] fix: a nested problem is set up in the directory of its
 component

---
 openmdao/components/subproblem.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index e7222f3..fa07899 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -152,16 +152,17 @@ class SubProblem(Component):
         # do full setup on our subproblem now that we have what we need
         # check_setup will be called later if specified from the top level
         # Problem so always set check=False here.
+        # (our directory comes first, because the subproblem is set up in it)
+        super(SubProblem, self)._setup_communicators(comm, parent_dir)
+
+        self._problem._parent_dir = self._sysdata.absdir
+
         try:
             self._problem.setup(check=False)
         except:
             _reraise(self.pathname,  sys.exc_info())
 
-        super(SubProblem, self)._setup_communicators(comm, parent_dir)
-
         self._problem.pathname = self.pathname
-        self._problem._parent_dir = self._sysdata.absdir
-
 
         for p in self._prob_params:
             if not (p in self._problem._dangling or p in self._problem.root.unknowns):
-- 
2.43.0


From 38b9c1aea1f9efe35f91e83912572c320c04c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:34 +0000
Subject: [PATCH 80/84] fix: profiling records calls that raise, and keeps its
 call stack right

---
 openmdao/util/profile.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/openmdao/util/profile.py b/openmdao/util/profile.py
index a31aa95..2921582 100644
--- a/openmdao/util/profile.py
+++ b/openmdao/util/profile.py
@@ -290,18 +290,20 @@ class _profile_dec(object):
                     _profile_funcs_dict[path] = len(_profile_funcs_dict)
 
                 start = etime()
-                ret = fn(*args[1:], **kwargs)
-                end = etime()
-
-                stack.pop()
-
-                _profile_struct.t = end - start
-                _profile_struct.ovr = start - ovr # keep track of overhead for later subtraction
-                _profile_struct.tstamp = start
-                _profile_struct.id = _profile_funcs_dict[path]
-                _profile_out.write(_profile_struct)
-
-                return ret
+                try:
+                    return fn(*args[1:], **kwargs)
+                finally:
+                    # a call that raises has ended too, and its callees have
+                    # been recorded below it
+                    end = etime()
+
+                    stack.pop()
+
+                    _profile_struct.t = end - start
+                    _profile_struct.ovr = start - ovr # keep track of overhead for later subtraction
+                    _profile_struct.tstamp = start
+                    _profile_struct.id = _profile_funcs_dict[path]
+                    _profile_out.write(_profile_struct)
             else:
                 return fn(*args[1:], **kwargs)
 
-- 
2.43.0


From 2a6226ac56844bfe0dbb6f767e7b64012329f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:29 +0000
Subject: [PATCH 81/84] fix: worker processes of a design end when something
 fails in the main process

---
 openmdao/drivers/predeterminedruns_driver.py | 94 ++++++++++++--------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 52c524c..d38ba13 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -605,58 +605,74 @@ class PredeterminedRunsDriver(Driver):
                                                  args=(problem, response_vars,
                                                  task_queue, done_queue, i)))
 
-        for proc in procs:
-            proc.start()
-
         iter_count = 0
         num_active = 0
+        started = []
+        stopped = False
         empty = {}
         try:
             for proc in procs:
-                # case is a generator, so must make a list to send
-                case = list(next(runiter))
-                task_queue.put((iter_count, case))
-                iter_count += 1
-                num_active += 1
-        except StopIteration:
-            pass
-        else:
-            try:
-                while num_active > 0:
-                    meta, values = done_queue.get()
-                    #logging.info("RECEIVED: %d, %s" % (meta['id'], values[2]))
-                    complete_case = self._build_case(meta, uvars, pvars,
-                                                     numuvars, values)
-                    num_active -= 1
-                    if complete_case is None:
-                        # there was a fatal error, don't run more cases
-                        break
+                proc.start()
+                started.append(proc)
 
-                    self.recorders.record_completed_case(root, complete_case)
+            try:
+                for proc in procs:
+                    # case is a generator, so must make a list to send
                     case = list(next(runiter))
                     task_queue.put((iter_count, case))
                     iter_count += 1
                     num_active += 1
             except StopIteration:
                 pass
+            else:
+                try:
+                    while num_active > 0:
+                        meta, values = done_queue.get()
+                        num_active -= 1
+                        #logging.info("RECEIVED: %d, %s" % (meta['id'], values[2]))
+                        complete_case = self._build_case(meta, uvars, pvars,
+                                                         numuvars, values)
+                        if complete_case is None:
+                            # there was a fatal error, don't run more cases
+                            break
+
+                        self.recorders.record_completed_case(root, complete_case)
+                        case = list(next(runiter))
+                        task_queue.put((iter_count, case))
+                        iter_count += 1
+                        num_active += 1
+                except StopIteration:
+                    pass
 
-        # tell all workers we're done
-        for proc in procs:
-            task_queue.put('STOP')
-
-        for i in range(num_active):
-            meta, values = done_queue.get()
-            #logging.info("RECEIVED: %d, %s" % (meta['id'], values[0]))
-            complete_case = self._build_case(meta, uvars, pvars,
-                                             numuvars, values)
-            if complete_case is None:
-                # had a fatal error, don't record
-                continue
-
-            self.recorders.record_completed_case(root, complete_case)
-
-        for proc in procs:
-            proc.join()
+            # tell all workers we're done
+            stopped = True
+            for proc in procs:
+                task_queue.put('STOP')
+
+            while num_active > 0:
+                meta, values = done_queue.get()
+                num_active -= 1
+                #logging.info("RECEIVED: %d, %s" % (meta['id'], values[0]))
+                complete_case = self._build_case(meta, uvars, pvars,
+                                                 numuvars, values)
+                if complete_case is None:
+                    # had a fatal error, don't record
+                    continue
+
+                self.recorders.record_completed_case(root, complete_case)
+        finally:
+            # the workers end too when something has failed here (a recorder,
+            # the design, the start of a worker). Their responses have to be
+            # taken first, or they can't.
+            if not stopped:
+                for proc in started:
+                    task_queue.put('STOP')
+
+            for i in range(num_active):
+                done_queue.get()
+
+            for proc in started:
+                proc.join()
 
     def _get_case_w_nones(self, it):
         """A wrapper around a case generator that returns None cases if
-- 
2.43.0


From b8a20ff585ff4976fd64112f4d08ad633502f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:25 +0000
Subject: [PATCH 82/84] fix: an optimized latin hypercube stays a latin
 hypercube when several elements are exchanged

---
 openmdao/drivers/latinhypercube_driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index 0744570..343d8d9 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -239,8 +239,8 @@ class _LHC_Individual(object):
             while el1 == el2:
                 el2 = randint(0, n - 1)
 
-            new_doe[el1, col] = self.doe[el2, col]
-            new_doe[el2, col] = self.doe[el1, col]
+            # Swap in the new one, which may have been changed there already
+            new_doe[el1, col], new_doe[el2, col] = new_doe[el2, col], new_doe[el1, col]
 
         return _LHC_Individual(new_doe, self.q, self.p)
 
-- 
2.43.0


From 29f94a846b4de20a804a13fca08c2de4ee8bf601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:31 +0000
Subject: [PATCH 83/84] fix: a case that fails in any of its processes is
 recorded as failed

---
 openmdao/drivers/predeterminedruns_driver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index d38ba13..3490477 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -478,6 +478,15 @@ class PredeterminedRunsDriver(Driver):
                 exc = sys.exc_info()
                 terminate = True
 
+        if MPI:
+            # the case has failed if it has failed in any of the processes
+            # that run it
+            for success, msg in root.comm.allgather((metadata['success'],
+                                                     metadata['msg'])):
+                if metadata['success'] and not success:
+                    metadata['success'] = success
+                    metadata['msg'] = msg
+
         return terminate, exc
 
     def _run_serial(self):
-- 
2.43.0


From 495fb0fc6274aef1a32c7bf45f72cdbde106bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:31 +0000
Subject: [PATCH 84/84] fix: processes that run the cases of an unseeded random
 design together get the same ones

---
 openmdao/drivers/latinhypercube_driver.py | 6 +++++-
 openmdao/drivers/uniform_driver.py        | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index 343d8d9..7f552c2 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -15,7 +15,7 @@ from openmdao.drivers.predeterminedruns_driver import PredeterminedRunsDriver
 from openmdao.util.array_util import evenly_distrib_idxs
 
 trace = os.environ.get('OPENMDAO_TRACE')
-from openmdao.core.mpi_wrap import debug
+from openmdao.core.mpi_wrap import MPI, debug
 
 
 class LatinHypercubeDriver(PredeterminedRunsDriver):
@@ -95,6 +95,10 @@ class LatinHypercubeDriver(PredeterminedRunsDriver):
                                ])
             samples.append(sample)
 
+        if MPI and self._num_par_doe == 1:
+            # all processes run every case, so they need the same ones
+            samples = self.root.comm.bcast(samples, root=0)
+
         for sample in samples:
             yield sample
 
diff --git a/openmdao/drivers/uniform_driver.py b/openmdao/drivers/uniform_driver.py
index 82f5eaf..8c6e674 100644
--- a/openmdao/drivers/uniform_driver.py
+++ b/openmdao/drivers/uniform_driver.py
@@ -2,6 +2,7 @@
 OpenMDAO design-of-experiments driver implementing the Uniform method.
 """
 
+from openmdao.core.mpi_wrap import MPI
 from openmdao.drivers.predeterminedruns_driver import PredeterminedRunsDriver
 from six import moves, iteritems
 import numpy as np
@@ -61,6 +62,10 @@ class UniformDriver(PredeterminedRunsDriver):
 
             samples.append(sample)
 
+        if MPI and self._num_par_doe == 1:
+            # all processes run every case, so they need the same ones
+            samples = self.root.comm.bcast(samples, root=0)
+
         for sample in samples:
             yield sample
 
-- 
2.43.0

