From 8575f4fec2c8c9f9a5e9eaf3be16bc0fb59640bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:13:12 +0000
Subject: [PATCH 01/29] fix: global_variance sums the squared deviations of all
 local devices, not only of the first one

---
 jVMC/mpi_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 73afa5e..02294d4 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,7 +43,7 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
         mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
-- 
2.43.0


From b1f126a51909975f343061cbe464b6e4e9fcb429 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:13:12 +0000
Subject: [PATCH 02/29] fix: global_covariance subtracts the product of the
 means as documented

---
 jVMC/mpi_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 02294d4..30e886f 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -240,7 +240,9 @@ def global_covariance(data, p):
 
     jit_my_stuff()
 
-    return global_sum(cov_helper(data, p))
+    mean = global_mean(data, p)
+
+    return global_sum(cov_helper(data, p)) - jnp.outer(jnp.conj(mean), mean)
 
 
 def bcast_unknown_size(data, root=0):
-- 
2.43.0


From 9ba99645d08e40e3ca54105b1032e20bdf4402e2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:13:12 +0000
Subject: [PATCH 03/29] fix: set_pmap_devices updates the module level default
 device

---
 jVMC/global_defs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/global_defs.py b/jVMC/global_defs.py
index 2d49c42..015eae9 100644
--- a/jVMC/global_defs.py
+++ b/jVMC/global_defs.py
@@ -37,6 +37,7 @@ def get_iterable(x):
 
 def set_pmap_devices(devices):
     devices = list(get_iterable(devices))
+    global myDevice
     global myPmapDevices
     global myDeviceCount
     global pmap_for_my_devices
-- 
2.43.0


From 6040085c4c570bd437a0c3bca03b4f4a6eeab545 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:13:12 +0000
Subject: [PATCH 04/29] fix: mean_and_grad adds a batch axis so that gradients
 of several devices are reduced correctly

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 5c246ca..128d604 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -224,7 +224,7 @@ class SampledObs():
         self._compute_data_and_mean(obs)
 
         obsGrad = self._estimator_grad(params, self._configs)
-        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[None,...] )
+        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[:, None,...] )
 
         psiGrad = SampledObs( 2.0*jnp.real( psi.gradients(self._configs) ), self._weights )
 
-- 
2.43.0


From 7279b6daf2d782d61a3a24b48ec32a3825f245d6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:13:12 +0000
Subject: [PATCH 05/29] fix: set_random_key assigns different random streams to
 different MPI processes

---
 jVMC/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6376bd4..c0e3caa 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -166,6 +166,7 @@ class MCSampler:
             * ``key``: Key (jax.random.PRNGKey)
         """
 
+        key = jax.random.split(key, mpi.commSize)[mpi.rank]
         self.key = jax.random.split(key, global_defs.device_count())
 
     def get_last_number_of_samples(self):
-- 
2.43.0


From 2d2a8e4fbe3a9fc6d6c681573e4628e425986011 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:13:12 +0000
Subject: [PATCH 06/29] fix: propose_POVM_outcome stays within the four
 outcomes and is symmetric

---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index c0e3caa..c7777de 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -23,7 +23,7 @@ def propose_POVM_outcome(key, s, info):
     key, subkey = random.split(key)
     idx = random.randint(subkey, (1,), 0, s.size)[0]
     idx = jnp.unravel_index(idx, s.shape)
-    update = (s[idx] + random.randint(key, (1,), 0, 3) % 4)
+    update = (s[idx] + random.randint(key, (1,), 1, 4)) % 4
     return s.at[idx].set(update)
 
 
-- 
2.43.0


From 8690e8608a0f0c44ba1f671ec3721e47bde4ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:13:12 +0000
Subject: [PATCH 07/29] fix: direct sampling with multipleOf returns the
 announced number of samples

---
 jVMC/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index c7777de..2754751 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -233,6 +233,7 @@ class MCSampler:
     def _get_samples_gen(self, params, numSamples, multipleOf=1):
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=multipleOf)
+        numSamples = numSamples * multipleOf
 
         tmpKeys = random.split(self.key[0], 3 * global_defs.device_count())
         self.key = tmpKeys[:global_defs.device_count()]
-- 
2.43.0


From 78cc5ce9ad1e9c923f4cd867f9613606674ed615 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:13:12 +0000
Subject: [PATCH 08/29] fix: MCMC sampling with multipleOf returns the
 announced number of samples

---
 jVMC/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 2754751..5e29bf8 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -266,7 +266,9 @@ class MCSampler:
         # Initialize sampling stuff
         self._mc_init(params)
 
-        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=np.lcm(self.numChains, multipleOf))
+        samplesPerDeviceUnit = int(np.lcm(self.numChains, multipleOf))
+        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=samplesPerDeviceUnit)
+        numSamples = numSamples * (samplesPerDeviceUnit // self.numChains)
         numSamplesStr = str(numSamples)
 
         # check whether _get_samples is already compiled for given number of samples
-- 
2.43.0


From 77a151991d3f0aa466eca0a338d35e09e11a6cef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 09/29] fix: ExactSampler counts every basis state once when it
 does not fill all devices

---
 jVMC/sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 5e29bf8..8c25e62 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -421,11 +421,10 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        self.numStatesPerDevice = [(myNumStates + deviceCount - 1) // deviceCount] * deviceCount
-        self.numStatesPerDevice[-1] += myNumStates - deviceCount * self.numStatesPerDevice[0]
-        self.numStatesPerDevice = jnp.array(self.numStatesPerDevice)
+        statesPerDevice = (myNumStates + deviceCount - 1) // deviceCount
+        self.numStatesPerDevice = jnp.clip(myNumStates - statesPerDevice * jnp.arange(deviceCount), 0, statesPerDevice)
 
-        totalNumStates = deviceCount * self.numStatesPerDevice[0]
+        totalNumStates = deviceCount * statesPerDevice
 
         intReps = jnp.arange(myFirstState, myFirstState + totalNumStates)
         intReps = intReps.reshape((global_defs.device_count(), -1))
-- 
2.43.0


From 21a734eba3db1d1e99a4b0489a693366977021c5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 10/29] fix: prefactors that are evaluated in parallel end up
 at the position of their operator string

---
 jVMC/operator/branch_free.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 6db54f9..94b21f0 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -425,8 +425,8 @@ class BranchFreeOperator(Operator):
                 myStart = nEls * rank
                 myEnd = min(myStart+nEls, N)
 
-                firstIdx = [0] + [prefactor[nEls * r][0]-1 for r in range(1,commSize)]
-                lastIdx = [prefactor[min(nEls * (r+1), N-1)][0]-1 for r in range(commSize-1)] + [len(init)]
+                firstIdx = [0] + [prefactor[nEls * r][0] if nEls * r < N else len(init) for r in range(1,commSize)]
+                lastIdx = firstIdx[1:] + [len(init)]
 
                 res = init[firstIdx[rank]:lastIdx[rank]]
 
-- 
2.43.0


From a3542f95472aa533495ffb29ea809a1894a33c4e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 11/29] fix: products of prefactors accept the positional
 operator arguments

---
 jVMC/operator/branch_free.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 94b21f0..5bca2dd 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -223,7 +223,7 @@ class OpStr(tuple):
                     factors.append(functools.partial(_id_prefactor, val=o))
 
         while len(factors)>1:
-            factors[0] = functools.partial(_prod_fun, f1=factors[0], f2=factors.pop())
+            factors[0] = functools.partial(_prod_fun, factors[0], factors.pop())
 
         return super(OpStr, cls).__new__(cls, tuple(factors + ops))
 
@@ -248,7 +248,7 @@ class OpStr(tuple):
             a = functools.partial(_id_prefactor, val=a)
 
         if callable(newOp[0]):
-            newOp[0] = functools.partial(_prod_fun, f1=a, f2=newOp[0])
+            newOp[0] = functools.partial(_prod_fun, a, newOp[0])
         else:
             newOp = [a] + newOp
 
-- 
2.43.0


From 719a473443c9fb0fa0ba520381b2c3eb6a8c6805 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 12/29] fix: fermionic signs for configurations with more than
 one lattice dimension

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 5bca2dd..77521ed 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -449,7 +449,7 @@ class BranchFreeOperator(Operator):
         sp = jnp.array([s] * numOps)
 
         ######## fermions ########
-        mask = jnp.tril(jnp.ones((s.shape[-1],s.shape[-1]),dtype=int),-1).T
+        mask = jnp.tril(jnp.ones((s.size,s.size),dtype=int),-1).T
         ##########################
 
         def apply_fun(c, x):
-- 
2.43.0


From eb8c3c7aef4c11ac620aef1148706b4f490fce50 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 13/29] fix: remainder batch of get_O_loc_batched takes the
 logarithm for non-logarithmic ansatzes

---
 jVMC/operator/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 8d62072..737ce02 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -268,8 +268,11 @@ class Operator(metaclass=abc.ABCMeta):
             logPsiSbatch = global_defs.pmap_for_my_devices(expand_batch, static_broadcasted_argnums=(1,))(logPsiSbatch, batchSize)
 
             sp, _ = self.get_s_primes(batch, *args)
+            logPsiSP = psi(sp)
+            if not psi.logarithmic:
+                logPsiSP = jnp.log(logPsiSP)
 
-            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
+            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
             OlocBatch = self._get_Oloc_slice_pmapd(OlocBatch, 0, remainder)
 
-- 
2.43.0


From a730773932790dd03f2b91256fbc6bc57e8d61f2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 14/29] fix: get_O_loc takes the logarithm of amplitudes that
 it evaluates itself

---
 jVMC/operator/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 737ce02..cd24544 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -181,6 +181,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         if logPsiS is None:
             logPsiS = psi(samples)
+            if not psi.logarithmic:
+                logPsiS = jnp.log(logPsiS)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
-- 
2.43.0


From 4d07feb41778c1cb28874a2eb19a1680965859e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 15/29] fix: get_estimator_function supports operators without
 argument preprocessor

---
 jVMC/operator/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index cd24544..c2f4e44 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -304,6 +304,7 @@ class Operator(metaclass=abc.ABCMeta):
         """
 
         op_fun = self.compile()
+        op_fun_args = args
         if type(op_fun) is tuple:
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
-- 
2.43.0


From c084ac004a4da67fc5e3a9d207c70f846d7498d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 16/29] fix: measure_povm reports the standard error of the
 mean of the respective observable

---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 53c5502..e03dfc9 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -37,14 +37,14 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         result[name] = {}
         result[name]["mean"] = jnp.array(mpi.global_mean(results[0][..., None], probs)[0])
         result[name]["variance"] = jnp.array(mpi.global_variance(results[0][..., None], probs)[0])
-        result[name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+        result[name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
         for key, value in results[1].items():
             result_name = name + "_corr_L" + str(key)
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[result_name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From 58e470feaa06517b3def1da2be670f8e2a95fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 17/29] fix: measure_povm accepts given sample configurations

---
 jVMC/operator/povm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index e03dfc9..a49bbfe 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -24,7 +24,7 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         * ``probs``: optional, the associated probabilities
         * ``observables``: optional, observables for which expectation values are computed
     """
-    if sampleConfigs == None:
+    if sampleConfigs is None:
         # sampleConfigs, sampleLogPsi, probs = sampler.sample(p, numSamples)
         sampleConfigs, sampleLogPsi, probs = sampler.sample()
 
-- 
2.43.0


From 5702b401eb6b84e37f8d8aef6994ee13a8db5547 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 18/29] fix: POVM observables on 2D lattices keep the device
 dimension

---
 jVMC/operator/povm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index a49bbfe..ae3f7c8 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -323,12 +323,12 @@ class POVM():
                 correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin)
             return self._spin_average_pmapd(resPerSamplePerSpin), correlators
         else:
-            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(1, -1, self.system_data["L"]**2)).reshape(1, -1, self.system_data["L"], self.system_data["L"])
+            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(states.shape[0], -1, self.system_data["L"]**2)).reshape(states.shape[0], -1, self.system_data["L"], self.system_data["L"])
             correlators = {}
             for corrLen in np.arange(self.system_data["L"]):
                 corrPerSamplePerSpin = self._evaluate_correlators_pmapd(resPerSamplePerSpin, corrLen)
-                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2))
-            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2)), correlators
+                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2))
+            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2)), correlators
 
 
 class POVMOperator(Operator):
-- 
2.43.0


From 556717aad6fdcf69dbebcf211288b98379eab2cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 19/29] fix: POVMOperator.add does not write into the
 dictionary of the caller

---
 jVMC/operator/povm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index ae3f7c8..c8f59cc 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -355,7 +355,7 @@ class POVMOperator(Operator):
             * ``opDescr``: Operator dictionary to be added to the operator.
         """
         id = len(self.ops) + 1
-        opDescr["id"] = id
+        opDescr = {**opDescr, "id": id}
         self.ops.append(opDescr)
         self.compiled = False
 
-- 
2.43.0


From 64979a2e51d1900cf6863adeefa0f70cad9871e2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:11 +0000
Subject: [PATCH 20/29] fix: init_net builds the two network ansatz

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 16c9eed..e62f67e 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -76,7 +76,7 @@ def init_net(descr, dims, seed=0):
 
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
-        model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
+        model = jVMC.nets.two_nets_wrapper.TwoNets((model1, model2))
         isGenerator = "sample" in dir(model1)
 
     avgFun = jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if isGenerator else jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp
-- 
2.43.0


From dd5a87ef8891d4cc8a1ec6639386f4139e4f5036 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:22 +0000
Subject: [PATCH 21/29] fix: get_tdvp_equation accepts the prefactor that
 get_sr_equation passes

---
 jVMC/util/tdvp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 92824ef..f8c9a02 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -131,12 +131,15 @@ class TDVP:
 
         return self.S
 
-    def get_tdvp_equation(self, Eloc, gradients):
+    def get_tdvp_equation(self, Eloc, gradients, rhsPrefactor=None):
+
+        if rhsPrefactor is None:
+            rhsPrefactor = self.rhsPrefactor
 
         self.ElocMean = Eloc.mean()[0]
         self.ElocVar = Eloc.var()[0]
 
-        self.F0 = (-self.rhsPrefactor) * gradients.covar(Eloc).ravel()
+        self.F0 = (-rhsPrefactor) * gradients.covar(Eloc).ravel()
         F = self.makeReal(self.F0)
 
         self.S0 = gradients.covar()
-- 
2.43.0


From 49d50a348870e0535ac41d9b0852bb297e7bd0aa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:37 +0000
Subject: [PATCH 22/29] fix: set_group can return to the root group

---
 jVMC/util/output_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index b3b7c67..9c37d21 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -23,6 +23,7 @@ class OutputManager:
 
     def set_group(self, group):
 
+        self.currentGroup = "/"
         if group != "/":
             self.currentGroup = "/" + group
 
-- 
2.43.0


From 2956276231ecba5083950c1b85242cae5c0240ed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:37 +0000
Subject: [PATCH 23/29] fix: write_dataset accepts data without shape attribute
 and does not print

---
 jVMC/util/output_manager.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index 9c37d21..f748cac 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -177,7 +177,6 @@ class OutputManager:
                     if not groupname in f["/"]:
                         f.create_group("/" + groupname)
 
-                print(data.shape)
                 f.create_dataset("/" + groupname + "/" + name, data=np.array(data))
 
     def start_timing(self, name):
-- 
2.43.0


From 585929bb16cf5bdc9823db19695bcd0cc7a371c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:11 +0000
Subject: [PATCH 24/29] fix: dictionary gradients of complex non-holomorphic
 networks cover all parameters

---
 jVMC/vqs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 150c3f3..8398e59 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -76,6 +76,13 @@ def dict_gradient(fun, params, arg):
     return tree_map(lambda x,y: x + 1.j*y, gr, gi)
 
 
+def dict_gradient_cpx_nonholo(fun, params, arg):
+    gr = grad(lambda p, y: jnp.real(fun.apply(p, y)))(params, arg)["params"]
+    gi = grad(lambda p, y: jnp.imag(fun.apply(p, y)))(params, arg)["params"]
+    return tree_map(lambda x, y: jnp.concatenate([jnp.real(x.ravel()) + 1.j * jnp.real(y.ravel()),
+                                                  -jnp.imag(x.ravel()) - 1.j * jnp.imag(y.ravel())]), gr, gi)
+
+
 def dict_gradient_real(fun, params, arg):
     g = grad(lambda p, y: jnp.real(fun.apply(p, y)))(params, arg)["params"]
     g = tree_map(lambda x: x.ravel(), g)
@@ -210,6 +217,7 @@ class NQS:
                     self.dict_gradient_function = dict_gradient
                 else:
                     self.flat_gradient_function = flat_gradient_cpx_nonholo
+                    self.dict_gradient_function = dict_gradient_cpx_nonholo
 
             self.paramShapes = [(p.size, p.shape) for p in tree_flatten(self.parameters["params"])[0]]
             self.netTreeDef = jax.tree_util.tree_structure(self.parameters["params"])
@@ -305,7 +313,6 @@ class NQS:
         
         self.init_net(s)
 
-        # Here we need to add the treatment for the complex non-holomorphic case
         gradOut = self._get_gradients_dict_pmapd(self.net, self.parameters, s, self.batchSize, self.dict_gradient_function)
 
         if self.holomorphic:
@@ -322,8 +329,7 @@ class NQS:
         start = 0
         P = jnp.arange(2*self.numParameters)
         for s in self.paramShapes:
-            # Here we need to add the treatment for the complex non-holomorphic case
-            if self.holomorphic:
+            if self.holomorphic or not self.realParams:
                 PTreeShape.append( ( P[start:start + 2*s[0]]) )
                 start += 2*s[0]
             else:
-- 
2.43.0


From db580075bdd820fd5faae1d5531aaa9326c6b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:23 +0000
Subject: [PATCH 25/29] fix: evaluate the argument function of operators once
 per batched local estimator (processes with different numbers of batches
 deadlocked)

---
 jVMC/operator/base.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index c2f4e44..c6bdcbf 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -129,6 +129,15 @@ class Operator(metaclass=abc.ABCMeta):
 
         """
 
+        return self._get_s_primes_prepared(s, *self._prepare_args(*args))
+
+    def _prepare_args(self, *args):
+        """Compile the operator if required and evaluate the argument function.
+
+        The argument function can involve communication between all MPI processes. Therefore, the number of
+        calls must not depend on the number of configurations that the individual process deals with.
+        """
+
         def id_fun(*args):
             return args
 
@@ -148,6 +157,10 @@ class Operator(metaclass=abc.ABCMeta):
         else:
             args = self.arg_fun(*args)
 
+        return args
+
+    def _get_s_primes_prepared(self, s, *args):
+
         # Compute matrix elements
         #self.sp, self.matEl = self._get_s_primes_pmapd(s, *args)
         self.sp, self.matEl = self._get_s_primes_pmapd(s, *args)
@@ -232,6 +245,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         Oloc = None
 
+        args = self._prepare_args(*args)
+
         numSamples = samples.shape[1]
         numBatches = numSamples // batchSize
         remainder = numSamples % batchSize
@@ -247,7 +262,7 @@ class Operator(metaclass=abc.ABCMeta):
             batch = self._get_config_batch_pmapd(samples, b * batchSize, batchSize)
             logPsiSbatch = self._get_logPsi_batch_pmapd(logPsiS, b * batchSize, batchSize)
 
-            sp, _ = self.get_s_primes(batch, *args)
+            sp, _ = self._get_s_primes_prepared(batch, *args)
             logPsiSP = psi(sp)
             if not psi.logarithmic:
                 logPsiSP = jnp.log(logPsiSP)
@@ -269,7 +284,7 @@ class Operator(metaclass=abc.ABCMeta):
             logPsiSbatch = self._get_logPsi_batch_pmapd(logPsiS, numBatches * batchSize, numSamples % batchSize)
             logPsiSbatch = global_defs.pmap_for_my_devices(expand_batch, static_broadcasted_argnums=(1,))(logPsiSbatch, batchSize)
 
-            sp, _ = self.get_s_primes(batch, *args)
+            sp, _ = self._get_s_primes_prepared(batch, *args)
             logPsiSP = psi(sp)
             if not psi.logarithmic:
                 logPsiSP = jnp.log(logPsiSP)
-- 
2.43.0


From 47fdb67363eb529d5b4f3cf21273df8eaea9e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:17 +0000
Subject: [PATCH 26/29] fix: RNN2DGeneral with GRU cells did not pass the
 hidden size to the cell

---
 jVMC/nets/rnn2d_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index fc4a73f..4eab478 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -129,7 +129,7 @@ class RNN2DGeneral(nn.Module):
                 self.cells = [LSTMCell(features=self.hiddenSize) for _ in range(self.depth)]
                 self.zero_carry = jnp.zeros((self.L, self.depth, 2, self.hiddenSize), dtype=self.dtype)
             elif self.cell == "GRU":
-                self.cells = [GRUCell() for _ in range(self.depth)]
+                self.cells = [GRUCell(features=self.hiddenSize) for _ in range(self.depth)]
             else:
                 ValueError("Cell name not recognized.")
         else:
-- 
2.43.0


From e33d6a2e8ebaf61f95ce1cc40c2abe992346c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 27/29] fix: CpxCNN zero-padded the periodically continued
 configuration again

---
 jVMC/nets/cnn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 6593831..1532ce3 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -140,6 +140,7 @@ class CpxCNN(nn.Module):
             #    x = jnp.pad(x, pads, 'constant', constant_values=0)
             x = f(nn.Conv(features=c, kernel_size=tuple(self.F),
                           strides=self.strides,
+                          padding=[(0, 0)] * len(self.strides) if self.periodicBoundary else "SAME",
                           use_bias=b, **init_args)(x))
 
         # strides=self.strides, padding=[(0, 0)] * len(self.strides),
-- 
2.43.0


From c1578ce47dbe2b2e4bcf174cc2705b477a1ad4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 28/29] fix: CpxCNNSym applied symmetry operations in the wrong
 spin coding

---
 jVMC/nets/cnn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 1532ce3..7674530 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -183,7 +183,9 @@ class CpxCNNSym(nn.Module):
     def __call__(self, x):
 
         inShape = x.shape
+        x = 2 * x - 1
         x = jax.vmap(lambda o, s: jnp.dot(o, s.ravel()).reshape(inShape), in_axes=(0, None))(self.orbit.orbit, x)
+        x = (x + 1) // 2
 
         def evaluate(x):
             return self.cnn(x)
-- 
2.43.0


From 89c89a47b2088118c50cce34ea10d273eaed6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:34 +0000
Subject: [PATCH 29/29] fix: init_net leaves the given description unchanged

---
 jVMC/util/util.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index e62f67e..f86f4f1 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -44,10 +44,11 @@ def init_net(descr, dims, seed=0):
 
     def get_net(descr, dims):
 
-        return netTypes[descr["type"]](**descr["parameters"])
+        parameters = dict(descr["parameters"])
+        if "actFun" in parameters:
+            parameters["actFun"] = get_activation_functions(parameters["actFun"])
 
-    if "actFun" in descr["net1"]["parameters"]:
-        descr["net1"]["parameters"]["actFun"] = get_activation_functions(descr["net1"]["parameters"]["actFun"])
+        return netTypes[descr["type"]](**parameters)
 
     symms = tuple()
     for key in ["translation", "rotation", "reflection", "spinflip"]:
@@ -70,10 +71,6 @@ def init_net(descr, dims, seed=0):
 
     else:
 
-        if "actFun" in descr["net2"]["parameters"]:
-
-            descr["net2"]["parameters"]["actFun"] = get_activation_functions(descr["net2"]["parameters"]["actFun"])
-
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
         model = jVMC.nets.two_nets_wrapper.TwoNets((model1, model2))
-- 
2.43.0

