From 3ce9f1cc09fb157c40ebbc92782382626db1fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:37 +0000
Subject: [PATCH 01/36] fix: global_variance sums the contributions of all
 devices of a process

Only the partial sum of the first device entered the result, so the variance
(and hence the MC error) was wrong as soon as a process used several devices.
---
 jVMC/mpi_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 73afa5e..29aff9c 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -200,7 +200,7 @@ def global_variance(data, p):
 
     mean = global_mean(data, p)
     # Compute sum locally
-    localSum = np.array(_sum_sq_pmapd(data, mean, p)[0])
+    localSum = np.sum(np.array(_sum_sq_pmapd(data, mean, p)), axis=0)
 
     # Allocate memory for result
     res = np.empty_like(localSum, dtype=localSum.dtype)
-- 
2.43.0


From ee5b18d64ca2d6120d15d45757c3cb5590d60937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:37 +0000
Subject: [PATCH 02/36] fix: global_covariance subtracts the product of means

The function returned the second moment instead of the documented covariance.
---
 jVMC/mpi_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 29aff9c..61c7761 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -240,7 +240,9 @@ def global_covariance(data, p):
 
     jit_my_stuff()
 
-    return global_sum(cov_helper(data, p))
+    mean = global_mean(data, p)
+
+    return global_sum(cov_helper(data, p)) - jnp.outer(jnp.conj(mean), mean)
 
 
 def bcast_unknown_size(data, root=0):
-- 
2.43.0


From 24e9f54ab65633357c49277c18cfb2e53e69de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:37 +0000
Subject: [PATCH 03/36] fix: ExactSampler counts every basis state once for any
 number of devices

When the padding exceeds one device (e.g. 5 states on 4 devices) only the last
device was corrected, so states owned by the next process were counted twice.
---
 jVMC/sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6376bd4..cf9d3a0 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -417,11 +417,11 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        self.numStatesPerDevice = [(myNumStates + deviceCount - 1) // deviceCount] * deviceCount
-        self.numStatesPerDevice[-1] += myNumStates - deviceCount * self.numStatesPerDevice[0]
-        self.numStatesPerDevice = jnp.array(self.numStatesPerDevice)
+        maxStatesPerDevice = int((myNumStates + deviceCount - 1) // deviceCount)
+        self.numStatesPerDevice = jnp.array([min(max(int(myNumStates) - d * maxStatesPerDevice, 0), maxStatesPerDevice)
+                                             for d in range(deviceCount)])
 
-        totalNumStates = deviceCount * self.numStatesPerDevice[0]
+        totalNumStates = deviceCount * maxStatesPerDevice
 
         intReps = jnp.arange(myFirstState, myFirstState + totalNumStates)
         intReps = intReps.reshape((global_defs.device_count(), -1))
-- 
2.43.0


From 5bd2fcfebd20430ff3eb56d0a54efc38753c81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:37 +0000
Subject: [PATCH 04/36] fix: MCSampler generates the accounted number of
 samples with multipleOf

distribute_sampling() returns the number of samples per chain for
lcm(numChains, multipleOf) chains, but the sampler only runs numChains chains.
Fewer samples than requested (and reported) were generated and the weights of
direct samples did not sum up to one.
---
 jVMC/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index cf9d3a0..a779214 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -232,6 +232,7 @@ class MCSampler:
     def _get_samples_gen(self, params, numSamples, multipleOf=1):
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=multipleOf)
+        numSamples = numSamples * multipleOf
 
         tmpKeys = random.split(self.key[0], 3 * global_defs.device_count())
         self.key = tmpKeys[:global_defs.device_count()]
@@ -265,6 +266,7 @@ class MCSampler:
         self._mc_init(params)
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=np.lcm(self.numChains, multipleOf))
+        numSamples = int(numSamples * np.lcm(self.numChains, multipleOf) // self.numChains)
         numSamplesStr = str(numSamples)
 
         # check whether _get_samples is already compiled for given number of samples
-- 
2.43.0


From b2afbf9bb8889adc977dca77c5c9acc32d025ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:37 +0000
Subject: [PATCH 05/36] fix: distributed evaluation of operator prefactors

With 50 or more prefactors and more than one MPI process the index bookkeeping
raised an IndexError or assigned prefactors to the wrong operator strings.
---
 jVMC/operator/branch_free.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 6db54f9..594d9b1 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -425,16 +425,11 @@ class BranchFreeOperator(Operator):
                 myStart = nEls * rank
                 myEnd = min(myStart+nEls, N)
 
-                firstIdx = [0] + [prefactor[nEls * r][0]-1 for r in range(1,commSize)]
-                lastIdx = [prefactor[min(nEls * (r+1), N-1)][0]-1 for r in range(commSize-1)] + [len(init)]
+                myPrefactors = np.array([f(*args) for _,f in prefactor[myStart:myEnd]], dtype=init.dtype)
 
-                res = init[firstIdx[rank]:lastIdx[rank]]
-
-                for i,f in prefactor[myStart:myEnd]:
-                    res[i-firstIdx[rank]] = f(*args)
+                res = init
+                res[[i for i,_ in prefactor]] = np.concatenate(comm.allgather(myPrefactors), axis=0)
 
-                res = np.concatenate(comm.allgather(res), axis=0)
-                
             return (jnp.array(res), )
 
         return functools.partial(self._get_s_primes, idxC=self.idxC, mapC=self.mapC, matElsC=self.matElsC, diag=self.diag, fermiC=self.fermionicC, prefactor=self.prefactor),\
-- 
2.43.0


From 1dee77a5d9f93e66c7a38b36f7f87d93b44357e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:38 +0000
Subject: [PATCH 06/36] fix: SampledObs.mean_and_grad works with several
 devices per process

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 5c246ca..13fd26b 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -224,7 +224,7 @@ class SampledObs():
         self._compute_data_and_mean(obs)
 
         obsGrad = self._estimator_grad(params, self._configs)
-        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[None,...] )
+        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[:,None,...] )
 
         psiGrad = SampledObs( 2.0*jnp.real( psi.gradients(self._configs) ), self._weights )
 
-- 
2.43.0


From 920093a1f3b8c4df2aec2469e8750934aa702b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 07/36] fix: batched O_loc communicates equally often on all
 MPI processes

The preprocessor of the operator arguments communicates if there are 50 or more
prefactors. It was called once per batch, and processes holding different numbers
of samples use different numbers of batches: the job deadlocked.
---
 jVMC/operator/base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 8d62072..bfebb0a 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -129,6 +129,12 @@ class Operator(metaclass=abc.ABCMeta):
 
         """
 
+        return self._get_s_primes_preprocessed(s, *self._preprocess_args(*args))
+
+    def _preprocess_args(self, *args):
+        # Compile operator if necessary and preprocess its arguments. The preprocessor may involve
+        # communication, so it has to be called equally often on all MPI processes.
+
         def id_fun(*args):
             return args
 
@@ -148,6 +154,10 @@ class Operator(metaclass=abc.ABCMeta):
         else:
             args = self.arg_fun(*args)
 
+        return args
+
+    def _get_s_primes_preprocessed(self, s, *args):
+
         # Compute matrix elements
         #self.sp, self.matEl = self._get_s_primes_pmapd(s, *args)
         self.sp, self.matEl = self._get_s_primes_pmapd(s, *args)
@@ -230,6 +240,9 @@ class Operator(metaclass=abc.ABCMeta):
 
         Oloc = None
 
+        # Number of batches can differ between MPI processes, therefore do this outside of the loop
+        args = self._preprocess_args(*args)
+
         numSamples = samples.shape[1]
         numBatches = numSamples // batchSize
         remainder = numSamples % batchSize
@@ -245,7 +258,7 @@ class Operator(metaclass=abc.ABCMeta):
             batch = self._get_config_batch_pmapd(samples, b * batchSize, batchSize)
             logPsiSbatch = self._get_logPsi_batch_pmapd(logPsiS, b * batchSize, batchSize)
 
-            sp, _ = self.get_s_primes(batch, *args)
+            sp, _ = self._get_s_primes_preprocessed(batch, *args)
             logPsiSP = psi(sp)
             if not psi.logarithmic:
                 logPsiSP = jnp.log(logPsiSP)
@@ -267,7 +280,7 @@ class Operator(metaclass=abc.ABCMeta):
             logPsiSbatch = self._get_logPsi_batch_pmapd(logPsiS, numBatches * batchSize, numSamples % batchSize)
             logPsiSbatch = global_defs.pmap_for_my_devices(expand_batch, static_broadcasted_argnums=(1,))(logPsiSbatch, batchSize)
 
-            sp, _ = self.get_s_primes(batch, *args)
+            sp, _ = self._get_s_primes_preprocessed(batch, *args)
 
             OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
         
-- 
2.43.0


From ac6116f90d846ae8bddf0a5e038ae4c4f3239399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 08/36] fix: SampledObs tolerates samples with zero weight

ExactSampler pads the basis with states of zero weight when it does not split
evenly across devices. Dividing by these weights turned covar_data(), covar_var(),
transform() and thereby the SNR in TDVP into NaN.
---
 jVMC/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 13fd26b..e37c315 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -61,14 +61,14 @@ def jit_my_stuff():
                                         jnp.sum(
                                             jnp.abs( 
                                                 jax.vmap(lambda a,b: jnp.outer(a,b))(jnp.conj(data1), data2),
-                                            )**2 / w[...,None,None],
+                                            )**2 / jnp.where(w > 0, w, 1)[...,None,None],
                                             axis=0),
                                     in_axes=(0, 0, 0)
                                     )
-        _covar_data_helper = jVMC.global_defs.pmap_for_my_devices(lambda data1, data2, w: jax.vmap(lambda a,b,w: jnp.outer(a,b) / w)(jnp.conj(data1), data2, w), in_axes=(0, 0, 0))
+        _covar_data_helper = jVMC.global_defs.pmap_for_my_devices(lambda data1, data2, w: jax.vmap(lambda a,b,w: jnp.outer(a,b) / jnp.where(w > 0, w, 1))(jnp.conj(data1), data2, w), in_axes=(0, 0, 0))
         _trafo_helper_1 = jVMC.global_defs.pmap_for_my_devices(
                                 lambda data, w, mean, f: f(
-                                    jax.vmap(lambda x,y: x/jnp.sqrt(y), in_axes=(0,0))(data, w) 
+                                    jax.vmap(lambda x,y: x/jnp.sqrt(jnp.where(y > 0, y, 1)), in_axes=(0,0))(data, w) 
                                     + mean
                                     ), 
                                 in_axes=(0, 0, None), static_broadcasted_argnums=(3,))
@@ -76,7 +76,7 @@ def jit_my_stuff():
                                 lambda data, w, mean, v, f: 
                                     jnp.matmul(v, 
                                                 f(
-                                                jax.vmap(lambda x,y: x/jnp.sqrt(y), in_axes=(0,0))(data, w) 
+                                                jax.vmap(lambda x,y: x/jnp.sqrt(jnp.where(y > 0, y, 1)), in_axes=(0,0))(data, w) 
                                                 + mean
                                                 )
                                     ), 
-- 
2.43.0


From d213765ad0fc4e138c4f57b8f46c95fc15b32eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 09/36] fix: MCSampler.set_random_key yields different keys on
 different MPI processes

All processes used the same key and hence generated identical samples.
---
 jVMC/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index a779214..e804437 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -166,7 +166,8 @@ class MCSampler:
             * ``key``: Key (jax.random.PRNGKey)
         """
 
-        self.key = jax.random.split(key, global_defs.device_count())
+        self.key = jax.random.split(key, mpi.commSize)[mpi.rank]
+        self.key = jax.random.split(self.key, global_defs.device_count())
 
     def get_last_number_of_samples(self):
         """Return last number of samples.
-- 
2.43.0


From f601b523fcd8a8dc3136a91d057e3a52f5d0e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 10/36] fix: propose_POVM_outcome proposes valid outcomes

The modulus was applied to the increment only, so outcomes outside of {0,..,3}
were proposed, never lower ones, and the update had the wrong shape.
---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index e804437..75072d0 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -23,7 +23,7 @@ def propose_POVM_outcome(key, s, info):
     key, subkey = random.split(key)
     idx = random.randint(subkey, (1,), 0, s.size)[0]
     idx = jnp.unravel_index(idx, s.shape)
-    update = (s[idx] + random.randint(key, (1,), 0, 3) % 4)
+    update = (s[idx] + random.randint(key, (1,), 1, 4)[0]) % 4
     return s.at[idx].set(update)
 
 
-- 
2.43.0


From 39137bc77d3d9d787f77db17ec57f69806e3ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:18 +0000
Subject: [PATCH 11/36] fix: interrupted writes of the OutputManager leave the
 records aligned

The time of a record was appended before its data, and every dataset was appended
to independently. When a write was interrupted (exception, Ctrl-C, full disk,
missing data) all subsequent data were assigned to wrong times and the last
checkpoint was returned with the wrong time. Now the data are written to the row of
the record and the time is appended last, marking the record as complete.
---
 jVMC/util/output_manager.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index b3b7c67..a03c553 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -33,6 +33,19 @@ class OutputManager:
 
         self.append = 'a'
 
+    def _append_time(self, times, time):
+        # The time is written last, because it marks a record as complete. Data left behind by an
+        # interrupted write is overwritten by the next record.
+
+        times.file.flush()
+        numRecords = len(times)
+        times.resize((numRecords + 1,))
+        try:
+            times[-1] = time
+        except BaseException:
+            times.resize((numRecords,))
+            raise
+
     def write_observables(self, time, **kwargs):
 
         if mpi.rank == 0:
@@ -46,8 +59,6 @@ class OutputManager:
                     f.create_dataset(self.currentGroup + "/observables/times", (0,), maxshape=(None,), dtype='f8', chunks=True)
 
                 newLen = len(f[self.currentGroup + "/observables/times"]) + 1
-                f[self.currentGroup + "/observables/times"].resize((newLen,))
-                f[self.currentGroup + "/observables/times"][-1] = time
 
                 for key, obsDict in kwargs.items():
 
@@ -61,12 +72,13 @@ class OutputManager:
 
                         if not name in f[self.currentGroup + "/observables/" + key]:
 
-                            f.create_dataset(datasetName, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True)
+                            f.create_dataset(datasetName, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True, fillvalue=np.nan)
 
-                        newLen = len(f[datasetName]) + 1
                         f[datasetName].resize((newLen,) + value.shape)
                         f[datasetName][-1] = value
 
+                self._append_time(f[self.currentGroup + "/observables/times"], time)
+
     def write_metadata(self, time, **kwargs):
 
         if mpi.rank == 0:
@@ -82,19 +94,18 @@ class OutputManager:
                     f.create_dataset(self.currentGroup + "/" + groupname + "/times", (0,), maxshape=(None,), dtype='f8', chunks=True)
 
                 newLen = len(f[self.currentGroup + "/" + groupname + "/times"]) + 1
-                f[self.currentGroup + "/" + groupname + "/times"].resize((newLen,))
-                f[self.currentGroup + "/" + groupname + "/times"][-1] = time
 
                 for key, value in kwargs.items():
 
                     if not key in f[self.currentGroup + "/" + groupname]:
 
-                        f.create_dataset(self.currentGroup + "/" + groupname + "/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True)
+                        f.create_dataset(self.currentGroup + "/" + groupname + "/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True, fillvalue=np.nan)
 
-                    newLen = len(f[self.currentGroup + "/" + groupname + "/" + key]) + 1
                     f[self.currentGroup + "/" + groupname + "/" + key].resize((newLen,) + value.shape)
                     f[self.currentGroup + "/" + groupname + "/" + key][-1] = value
 
+                self._append_time(f[self.currentGroup + "/" + groupname + "/times"], time)
+
     def write_network_checkpoint(self, time, weights):
 
         if mpi.rank == 0:
@@ -110,20 +121,19 @@ class OutputManager:
                     f.create_dataset(self.currentGroup + "/" + groupname + "/times", (0,), maxshape=(None,), dtype='f8', chunks=True)
 
                 newLen = len(f[self.currentGroup + "/" + groupname + "/times"]) + 1
-                f[self.currentGroup + "/" + groupname + "/times"].resize((newLen,))
-                f[self.currentGroup + "/" + groupname + "/times"][-1] = time
 
                 key = "checkpoints"
                 value = weights
 
                 if not key in f[self.currentGroup + "/" + groupname]:
 
-                    f.create_dataset(self.currentGroup + "/" + groupname + "/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True)
+                    f.create_dataset(self.currentGroup + "/" + groupname + "/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True, fillvalue=np.nan)
 
-                newLen = len(f[self.currentGroup + "/" + groupname + "/" + key]) + 1
                 f[self.currentGroup + "/" + groupname + "/" + key].resize((newLen,) + value.shape)
                 f[self.currentGroup + "/" + groupname + "/" + key][-1] = value
 
+                self._append_time(f[self.currentGroup + "/" + groupname + "/times"], time)
+
     def get_network_checkpoint(self, time=-1, idx=-1):
 
         groupname = "network_checkpoints"
@@ -139,6 +149,8 @@ class OutputManager:
             if time >= 0:
                 idx = np.argmin(np.abs(times-time))
 
+            idx = np.arange(len(times))[idx]
+
             with h5py.File(self.fn, "r") as f:
                 weights = f[self.currentGroup + "/" + groupname + "/" + key][idx]
             time = times[idx]
-- 
2.43.0


From 00f9cb34158745b25bac3c49d037559aa935d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:18 +0000
Subject: [PATCH 12/36] fix: OutputManager.set_group can return to the root
 group

---
 jVMC/util/output_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index a03c553..44d72b0 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -23,6 +23,7 @@ class OutputManager:
 
     def set_group(self, group):
 
+        self.currentGroup = "/"
         if group != "/":
             self.currentGroup = "/" + group
 
-- 
2.43.0


From a65e2a7459347e0bc7abaa15e1fb1891ba72d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:52 +0000
Subject: [PATCH 13/36] fix: restore the network parameters when a computation
 fails

TDVP, MinSR and the samplers temporarily assign trial parameters to the ansatz.
When an exception occurred in between (out of memory, Ctrl-C, communication error)
the ansatz kept the trial parameters.
---
 jVMC/sampler.py    | 30 ++++++++++++++++++------------
 jVMC/util/minsr.py | 10 +++++++---
 jVMC/util/tdvp.py  | 10 +++++++---
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 75072d0..12e6bb7 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -211,12 +211,14 @@ class MCSampler:
             numSamples = self.numSamples
 
         if self.net.is_generator:
-            if parameters is not None:
-                tmpP = self.net.params
-                self.net.set_parameters(parameters)
-            configs, coeffs, ps = self._get_samples_gen(self.net.parameters, numSamples, multipleOf)
-            if parameters is not None:
-                self.net.params = tmpP
+            tmpP = self.net.params
+            try:
+                if parameters is not None:
+                    self.net.set_parameters(parameters)
+                configs, coeffs, ps = self._get_samples_gen(self.net.parameters, numSamples, multipleOf)
+            finally:
+                if parameters is not None:
+                    self.net.params = tmpP
             return configs, coeffs, ps
 
         configs, logPsi = self._get_samples_mcmc(parameters, numSamples, multipleOf)
@@ -282,9 +284,11 @@ class MCSampler:
                                                   self.updateProposer, self.updateProposerArg, self.sampleShape)
 
         tmpP = self.net.params
-        self.net.params = params["params"]
-        coeffs = self.net(configs)
-        self.net.params = tmpP
+        try:
+            self.net.params = params["params"]
+            coeffs = self.net(configs)
+        finally:
+            self.net.params = tmpP
 
         # return configs, None
         return configs, coeffs
@@ -507,9 +511,11 @@ class ExactSampler:
         if parameters is not None:
             tmpP = self.psi.get_parameters()
             self.psi.set_parameters(parameters)
-        logPsi = self.psi(self.basis)
-        if parameters is not None:
-            self.psi.set_parameters(tmpP)
+        try:
+            logPsi = self.psi(self.basis)
+        finally:
+            if parameters is not None:
+                self.psi.set_parameters(tmpP)
 
         p = self._compute_probabilities_pmapd(logPsi, self.lastNorm, self.numStatesPerDevice)
 
diff --git a/jVMC/util/minsr.py b/jVMC/util/minsr.py
index 6a83d08..a3c2d13 100644
--- a/jVMC/util/minsr.py
+++ b/jVMC/util/minsr.py
@@ -100,7 +100,13 @@ class MinSR:
         """
 
         tmpParameters = psi.get_parameters()
-        psi.set_parameters(netParameters)
+        try:
+            psi.set_parameters(netParameters)
+            return self._evaluate(t, psi, hamiltonian, rhsArgs)
+        finally:
+            psi.set_parameters(tmpParameters)
+
+    def _evaluate(self, t, psi, hamiltonian, rhsArgs):
 
         outp = None
         if "outp" in rhsArgs:
@@ -145,8 +151,6 @@ class MinSR:
         if outp is not None:
             outp.add_timing("MPI communication", mpi.get_communication_time())
 
-        psi.set_parameters(tmpParameters)
-
         if "intStep" in rhsArgs:
             if rhsArgs["intStep"] == 0:
 
diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 92824ef..e2ca38c 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -242,7 +242,13 @@ class TDVP:
         """
 
         tmpParameters = psi.get_parameters()
-        psi.set_parameters(netParameters)
+        try:
+            psi.set_parameters(netParameters)
+            return self._evaluate(t, psi, hamiltonian, rhsArgs)
+        finally:
+            psi.set_parameters(tmpParameters)
+
+    def _evaluate(self, t, psi, hamiltonian, rhsArgs):
 
         outp = None
         if "outp" in rhsArgs:
@@ -287,8 +293,6 @@ class TDVP:
         if outp is not None:
             outp.add_timing("MPI communication", mpi.get_communication_time())
 
-        psi.set_parameters(tmpParameters)
-
         if "intStep" in rhsArgs:
             if rhsArgs["intStep"] == 0:
 
-- 
2.43.0


From 7695462770511b13bfe49a2cc5d5b1fe8eb2241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:52 +0000
Subject: [PATCH 14/36] fix: measure_povm returns the standard error of the
 mean as MC error

The variance instead of the standard deviation was divided by the square root of
the number of samples, and correlators got the error of the magnetization.
---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 53c5502..e03dfc9 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -37,14 +37,14 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         result[name] = {}
         result[name]["mean"] = jnp.array(mpi.global_mean(results[0][..., None], probs)[0])
         result[name]["variance"] = jnp.array(mpi.global_variance(results[0][..., None], probs)[0])
-        result[name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+        result[name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
         for key, value in results[1].items():
             result_name = name + "_corr_L" + str(key)
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[result_name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From 0955510dd39fe1684005929b9ff8386d4b20fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:52 +0000
Subject: [PATCH 15/36] fix: POVM.evaluate_observable in 2D works with several
 devices per process

---
 jVMC/operator/povm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index e03dfc9..8a858f0 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -323,12 +323,12 @@ class POVM():
                 correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin)
             return self._spin_average_pmapd(resPerSamplePerSpin), correlators
         else:
-            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(1, -1, self.system_data["L"]**2)).reshape(1, -1, self.system_data["L"], self.system_data["L"])
+            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(states.shape[0], -1, self.system_data["L"]**2)).reshape(states.shape[0], -1, self.system_data["L"], self.system_data["L"])
             correlators = {}
             for corrLen in np.arange(self.system_data["L"]):
                 corrPerSamplePerSpin = self._evaluate_correlators_pmapd(resPerSamplePerSpin, corrLen)
-                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2))
-            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2)), correlators
+                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2))
+            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2)), correlators
 
 
 class POVMOperator(Operator):
-- 
2.43.0


From 8e41c3f80c08d67afd3d08185adfb8240e80ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:26 +0000
Subject: [PATCH 16/36] fix: ExactSampler recovers from a sample with
 non-finite wave function

The accumulated normalization became NaN forever, such that all subsequent samples
were invalid, even after restoring valid parameters.
---
 jVMC/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 12e6bb7..68ef9eb 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -522,7 +522,9 @@ class ExactSampler:
         nrm = mpi.global_sum(p)
         p = self._normalize_pmapd(p, nrm)
 
-        self.lastNorm += self.logProbFactor * jnp.log(nrm)
+        newNorm = self.lastNorm + self.logProbFactor * jnp.log(nrm)
+        if jnp.isfinite(newNorm):
+            self.lastNorm = newNorm
 
         return self.basis, logPsi, p
 
-- 
2.43.0


From aae038458995684a28f6dddfa4225a68c8d4d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:04 +0000
Subject: [PATCH 17/36] fix: global_mean and global_variance for
 multi-dimensional data

The mean contracted the probabilities with the wrong axis and the variance raised
an error unless there was exactly one data dimension.
---
 jVMC/mpi_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 61c7761..1d52459 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,8 +43,8 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
-        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('i..., i..., i -> ...', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
+        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.tensordot(p, data, axes=(0, 0)), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
         mpiPmapDevices = global_defs.myPmapDevices
-- 
2.43.0


From 8ad44d90b103f109dadc5c8fe5998aec793da8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:11 +0000
Subject: [PATCH 18/36] fix: products of prefactors of operator strings accept
 arguments

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 594d9b1..8cee717 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -196,7 +196,7 @@ import copy
 def _id_prefactor(*args, val=1.0, **kwargs):
     return val
 
-def _prod_fun(f1, f2, *args, **kwargs):
+def _prod_fun(*args, f1, f2, **kwargs):
     return f1(*args) * f2(*args)
 
 
-- 
2.43.0


From dfb6ab1f7438f02fe5f7f1021cae3cecdaec49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:17 +0000
Subject: [PATCH 19/36] fix: TDVP accepts pinvCutoff of 1e-2 and more

---
 jVMC/util/tdvp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index e2ca38c..e544b54 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -194,8 +194,9 @@ class TDVP:
 
         residual = 1.0
         cutoff = 1e-2
+        pinvEv = None
         F_norm = jnp.linalg.norm(F)
-        while residual > self.pinvTol and cutoff > self.pinvCutoff:
+        while pinvEv is None or (residual > self.pinvTol and cutoff > self.pinvCutoff):
             cutoff *= 0.8
             # Set regularizer for singular value cutoff
             regularizer = 1. / (1. + (max(cutoff, self.pinvCutoff) / jnp.abs(self.ev / self.ev[-1]))**6)
-- 
2.43.0


From b819980d93fe0840a854db4e71213547c6e5694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:03 +0000
Subject: [PATCH 20/36] fix: TDVP update stays finite when a discarded
 direction has undefined SNR

---
 jVMC/util/tdvp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index e544b54..3458339 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -205,7 +205,8 @@ class TDVP:
                 # Construct a soft cutoff based on the SNR
                 regularizer *= 1. / (1. + (self.snrTol / self.snr)**6)
 
-            pinvEv = self.invEv * regularizer
+            # Discarded directions can have undefined SNR
+            pinvEv = jnp.where(self.invEv != 0, self.invEv * regularizer, 0.)
 
             residual = jnp.linalg.norm((pinvEv * self.ev - jnp.ones_like(pinvEv)) * self.VtF) / F_norm
 
-- 
2.43.0


From 5a25a75c4dd59f062289bb8d1c9a02f60c7cbb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:42 +0000
Subject: [PATCH 21/36] fix: data of an interrupted write of the OutputManager
 does not show up in later records

---
 jVMC/util/output_manager.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index 44d72b0..bc412f2 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -34,9 +34,19 @@ class OutputManager:
 
         self.append = 'a'
 
+    def _discard_incomplete(self, group):
+        # Remove data left behind by an interrupted write, i.e., data for which no time was written
+
+        numRecords = len(group["times"])
+
+        def discard(name, item):
+            if isinstance(item, h5py.Dataset) and item.maxshape[:1] == (None,) and len(item) > numRecords:
+                item.resize(numRecords, axis=0)
+
+        group.visititems(discard)
+
     def _append_time(self, times, time):
-        # The time is written last, because it marks a record as complete. Data left behind by an
-        # interrupted write is overwritten by the next record.
+        # The time is written last, because it marks a record as complete.
 
         times.file.flush()
         numRecords = len(times)
@@ -59,6 +69,7 @@ class OutputManager:
                 if not "times" in f[self.currentGroup + "/observables"]:
                     f.create_dataset(self.currentGroup + "/observables/times", (0,), maxshape=(None,), dtype='f8', chunks=True)
 
+                self._discard_incomplete(f[self.currentGroup + "/observables"])
                 newLen = len(f[self.currentGroup + "/observables/times"]) + 1
 
                 for key, obsDict in kwargs.items():
@@ -94,6 +105,7 @@ class OutputManager:
                 if not "times" in f[self.currentGroup + "/" + groupname]:
                     f.create_dataset(self.currentGroup + "/" + groupname + "/times", (0,), maxshape=(None,), dtype='f8', chunks=True)
 
+                self._discard_incomplete(f[self.currentGroup + "/" + groupname])
                 newLen = len(f[self.currentGroup + "/" + groupname + "/times"]) + 1
 
                 for key, value in kwargs.items():
@@ -121,6 +133,7 @@ class OutputManager:
                 if not "times" in f[self.currentGroup + "/" + groupname]:
                     f.create_dataset(self.currentGroup + "/" + groupname + "/times", (0,), maxshape=(None,), dtype='f8', chunks=True)
 
+                self._discard_incomplete(f[self.currentGroup + "/" + groupname])
                 newLen = len(f[self.currentGroup + "/" + groupname + "/times"]) + 1
 
                 key = "checkpoints"
-- 
2.43.0


From b3bb1e6fc06480b6c894710c77eceab48655f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 22/36] fix: space of a killed write of the OutputManager does
 not show up in later records

---
 jVMC/util/output_manager.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index bc412f2..dce3f2a 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -45,6 +45,19 @@ class OutputManager:
 
         group.visititems(discard)
 
+    def _append_data(self, dataset, newLen, value):
+        # Records without this data are marked as missing; the space of an interrupted write is not blank.
+
+        oldLen = len(dataset)
+        dataset.resize((newLen,) + value.shape)
+        try:
+            if oldLen < newLen - 1:
+                dataset[oldLen:newLen-1] = np.nan
+            dataset[newLen-1] = value
+        except BaseException:
+            dataset.resize((oldLen,) + value.shape)
+            raise
+
     def _append_time(self, times, time):
         # The time is written last, because it marks a record as complete.
 
@@ -86,8 +99,7 @@ class OutputManager:
 
                             f.create_dataset(datasetName, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True, fillvalue=np.nan)
 
-                        f[datasetName].resize((newLen,) + value.shape)
-                        f[datasetName][-1] = value
+                        self._append_data(f[datasetName], newLen, value)
 
                 self._append_time(f[self.currentGroup + "/observables/times"], time)
 
@@ -114,8 +126,7 @@ class OutputManager:
 
                         f.create_dataset(self.currentGroup + "/" + groupname + "/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True, fillvalue=np.nan)
 
-                    f[self.currentGroup + "/" + groupname + "/" + key].resize((newLen,) + value.shape)
-                    f[self.currentGroup + "/" + groupname + "/" + key][-1] = value
+                    self._append_data(f[self.currentGroup + "/" + groupname + "/" + key], newLen, value)
 
                 self._append_time(f[self.currentGroup + "/" + groupname + "/times"], time)
 
@@ -143,8 +154,7 @@ class OutputManager:
 
                     f.create_dataset(self.currentGroup + "/" + groupname + "/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True, fillvalue=np.nan)
 
-                f[self.currentGroup + "/" + groupname + "/" + key].resize((newLen,) + value.shape)
-                f[self.currentGroup + "/" + groupname + "/" + key][-1] = value
+                self._append_data(f[self.currentGroup + "/" + groupname + "/" + key], newLen, value)
 
                 self._append_time(f[self.currentGroup + "/" + groupname + "/times"], time)
 
-- 
2.43.0


From 9e61d200a32c67f0f92e4b889749f490a7ebcab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:30 +0000
Subject: [PATCH 23/36] fix: networks with real parameters are not taken for
 holomorphic when their gradient vanishes at the first sample

---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 150c3f3..d9fea14 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -201,7 +201,7 @@ class NQS:
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
             grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
             grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From 0628661a83706a24476c908c1efa29286ade6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:37 +0000
Subject: [PATCH 24/36] fix: dictionary of gradients of complex non-holomorphic
 networks is complete

---
 jVMC/vqs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index d9fea14..af24ac0 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -76,6 +76,13 @@ def dict_gradient(fun, params, arg):
     return tree_map(lambda x,y: x + 1.j*y, gr, gi)
 
 
+def dict_gradient_cpx_nonholo(fun, params, arg):
+    gr = grad(lambda p, y: jnp.real(fun.apply(p, y)))(params, arg)["params"]
+    gi = grad(lambda p, y: jnp.imag(fun.apply(p, y)))(params, arg)["params"]
+    split = lambda x: jnp.concatenate([jnp.real(x.ravel()), -jnp.imag(x.ravel())])
+    return tree_map(lambda x,y: split(x) + 1.j*split(y), gr, gi)
+
+
 def dict_gradient_real(fun, params, arg):
     g = grad(lambda p, y: jnp.real(fun.apply(p, y)))(params, arg)["params"]
     g = tree_map(lambda x: x.ravel(), g)
@@ -210,6 +217,7 @@ class NQS:
                     self.dict_gradient_function = dict_gradient
                 else:
                     self.flat_gradient_function = flat_gradient_cpx_nonholo
+                    self.dict_gradient_function = dict_gradient_cpx_nonholo
 
             self.paramShapes = [(p.size, p.shape) for p in tree_flatten(self.parameters["params"])[0]]
             self.netTreeDef = jax.tree_util.tree_structure(self.parameters["params"])
@@ -305,7 +313,6 @@ class NQS:
         
         self.init_net(s)
 
-        # Here we need to add the treatment for the complex non-holomorphic case
         gradOut = self._get_gradients_dict_pmapd(self.net, self.parameters, s, self.batchSize, self.dict_gradient_function)
 
         if self.holomorphic:
@@ -322,8 +329,7 @@ class NQS:
         start = 0
         P = jnp.arange(2*self.numParameters)
         for s in self.paramShapes:
-            # Here we need to add the treatment for the complex non-holomorphic case
-            if self.holomorphic:
+            if not self.realParams:
                 PTreeShape.append( ( P[start:start + 2*s[0]]) )
                 start += 2*s[0]
             else:
-- 
2.43.0


From e096ce668b766f61f0d530583a70423f917780fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:48 +0000
Subject: [PATCH 25/36] fix: BranchFreeOperator acts on configurations of
 two-dimensional lattices

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 8cee717..eacf256 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -444,7 +444,7 @@ class BranchFreeOperator(Operator):
         sp = jnp.array([s] * numOps)
 
         ######## fermions ########
-        mask = jnp.tril(jnp.ones((s.shape[-1],s.shape[-1]),dtype=int),-1).T
+        mask = jnp.tril(jnp.ones((s.size,s.size),dtype=int),-1).T
         ##########################
 
         def apply_fun(c, x):
-- 
2.43.0


From 234c6590d6539755eff0de592d6abc4679c76b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:48 +0000
Subject: [PATCH 26/36] fix: a term added to several POVM operators is not lost

---
 jVMC/operator/povm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 8a858f0..7be0328 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -355,8 +355,7 @@ class POVMOperator(Operator):
             * ``opDescr``: Operator dictionary to be added to the operator.
         """
         id = len(self.ops) + 1
-        opDescr["id"] = id
-        self.ops.append(opDescr)
+        self.ops.append({**opDescr, "id": id})
         self.compiled = False
 
     def _get_s_primes(self, s, *args):
-- 
2.43.0


From 70c597f382cfe5fd082619b4fafb72fb90482d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:48 +0000
Subject: [PATCH 27/36] fix: get_estimator_function works for operators without
 preprocessor

---
 jVMC/operator/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index bfebb0a..5167697 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -312,6 +312,7 @@ class Operator(metaclass=abc.ABCMeta):
         """
 
         op_fun = self.compile()
+        op_fun_args = args
         if type(op_fun) is tuple:
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
-- 
2.43.0


From 024f1d28726f26927794f06a5b4fe92c88ff8bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:30 +0000
Subject: [PATCH 28/36] fix: write_dataset does not print on other processes
 and accepts any array-like data

---
 jVMC/util/output_manager.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index dce3f2a..fadd695 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -212,7 +212,6 @@ class OutputManager:
                     if not groupname in f["/"]:
                         f.create_group("/" + groupname)
 
-                print(data.shape)
                 f.create_dataset("/" + groupname + "/" + name, data=np.array(data))
 
     def start_timing(self, name):
-- 
2.43.0


From 8091e79741cd0c61636461f39de85d4f896ff754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:26 +0000
Subject: [PATCH 29/36] fix: operator unusable after a failed evaluation of its
 arguments

---
 jVMC/operator/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 5167697..46aec1f 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -140,17 +140,17 @@ class Operator(metaclass=abc.ABCMeta):
 
         if (not self.compiled) or self.compiled_argnum!=len(args):
             fun = self.compile()
-            self.compiled = True
-            self.compiled_argnum = len(args)
+            argnum = len(args)
+            arg_fun = id_fun
             if type(fun) is tuple:
-                self.arg_fun = fun[1]
-                args = self.arg_fun(*args)
-                fun = fun[0]
-            else:
-                self.arg_fun = id_fun
+                fun, arg_fun = fun
+                args = arg_fun(*args)
             _get_s_primes = jax.vmap(fun, in_axes=(0,)+(None,)*len(args))
             #_get_s_primes = jax.vmap(self.compile(), in_axes=(0,)+(None,)*len(args))
             self._get_s_primes_pmapd = global_defs.pmap_for_my_devices(_get_s_primes, in_axes=(0,)+(None,)*len(args))
+            self.arg_fun = arg_fun
+            self.compiled_argnum = argnum
+            self.compiled = True
         else:
             args = self.arg_fun(*args)
 
-- 
2.43.0


From 93014e7693ae6848400e5cc2290a741c7aff3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:52 +0000
Subject: [PATCH 30/36] fix: ground state search made no step for variance
 tolerances of one or more

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 16c9eed..45f090d 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -183,7 +183,7 @@ def ground_state_search(psi, ham, tdvpEquation, sampler, numSteps=200, varianceT
             obs = measure(observables, psi, sampler)
             outp.write_observables(n, **obs)
 
-    varE = 1.0
+    varE = np.inf
 
     while n < numSteps and varE > varianceTol:
 
-- 
2.43.0


From dddcc32628bae9addb07b99e4f2bdacc57fdd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 31/36] fix: parameters of a network changed with the numpy
 array they were set from

---
 jVMC/vqs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index af24ac0..7610337 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -435,6 +435,9 @@ class NQS:
 
     def _param_unflatten(self, P):
 
+        # Copy, because the caller may reuse the memory of a numpy array
+        P = jnp.array(P)
+
         # Reshape parameter update according to net tree structure
         PTreeShape = []
         start = 0
-- 
2.43.0


From 356a1feb9c313b963ac89f84eb119275ac023f62 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:51:52 +0000
Subject: [PATCH 32/36] fix: local operator values of wave functions that are
 not logarithmic

The last, incomplete batch, local values without given amplitudes and estimator
functions used plain coefficients as if they were logarithms.
---
 jVMC/operator/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 46aec1f..5cc079e 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -191,6 +191,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         if logPsiS is None:
             logPsiS = psi(samples)
+            if not psi.logarithmic:
+                logPsiS = jnp.log(logPsiS)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -282,7 +284,10 @@ class Operator(metaclass=abc.ABCMeta):
 
             sp, _ = self._get_s_primes_preprocessed(batch, *args)
 
-            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
+            logPsiSP = psi(sp)
+            if not psi.logarithmic:
+                logPsiSP = jnp.log(logPsiSP)
+            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
             OlocBatch = self._get_Oloc_slice_pmapd(OlocBatch, 0, remainder)
 
@@ -317,6 +322,9 @@ class Operator(metaclass=abc.ABCMeta):
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
         net_fun = psi.net.apply
+        if not psi.logarithmic:
+            def net_fun(params, config):
+                return jnp.log(psi.net.apply(params, config))
 
         def op_estimator(params, config):
 
-- 
2.43.0


From 7ebda1ddbee5ba011fcc6b0a05430343bbfd42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 33/36] fix: writing data of smaller shape truncated all
 earlier records

E.g. a checkpoint of a network with fewer parameters cut the parameters of all
earlier checkpoints in the file. Data of another shape is now refused.
---
 jVMC/util/output_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index fadd695..fc46825 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -48,14 +48,16 @@ class OutputManager:
     def _append_data(self, dataset, newLen, value):
         # Records without this data are marked as missing; the space of an interrupted write is not blank.
 
+        if value.shape != dataset.shape[1:]:
+            raise ValueError("Shape %s of the data differs from the shape %s of earlier records in %s." % (value.shape, dataset.shape[1:], dataset.name))
         oldLen = len(dataset)
-        dataset.resize((newLen,) + value.shape)
+        dataset.resize(newLen, axis=0)
         try:
             if oldLen < newLen - 1:
                 dataset[oldLen:newLen-1] = np.nan
             dataset[newLen-1] = value
         except BaseException:
-            dataset.resize((oldLen,) + value.shape)
+            dataset.resize(oldLen, axis=0)
             raise
 
     def _append_time(self, times, time):
-- 
2.43.0


From 74328daf30a0fb90d6db10eae90436b8ab74e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 34/36] fix: AdaptiveHeun with numpy states and right-hand
 sides that return their argument

The state was changed in place, and with it the derivative.
---
 jVMC/util/stepper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/util/stepper.py b/jVMC/util/stepper.py
index 1edce22..06538c4 100644
--- a/jVMC/util/stepper.py
+++ b/jVMC/util/stepper.py
@@ -144,17 +144,17 @@ class AdaptiveHeun:
 
             y = yInitial.copy()
             k0 = f(y, t, **rhsArgs, intStep=0)
-            y += dt * k0
+            y = y + dt * k0
             k1 = f(y, t + dt, **rhsArgs, intStep=1)
             dy0 = 0.5 * dt * (k0 + k1)
 
             # now with half step size
-            y -= 0.5 * dt * k0
+            y = y - 0.5 * dt * k0
             k10 = f(y, t + 0.5 * dt, **rhsArgs, intStep=2)
             dy1 = 0.25 * dt * (k0 + k10)
             y = yInitial + dy1
             k01 = f(y, t + 0.5 * dt, **rhsArgs, intStep=3)
-            y += 0.5 * dt * k01
+            y = y + 0.5 * dt * k01
             k11 = f(y, t + dt, **rhsArgs, intStep=4)
             dy1 += 0.25 * dt * (k01 + k11)
 
-- 
2.43.0


From 4946ec976900bfda3057e6968b97e134c9ab9948 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:21:24 +0000
Subject: [PATCH 35/36] fix: init_net changed the description, which could not
 be used again

The names of activation functions were replaced by the functions in the
caller's dictionary, so that a second network from the same description
raised KeyError.
---
 jVMC/util/util.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 45f090d..5c3973c 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -44,10 +44,12 @@ def init_net(descr, dims, seed=0):
 
     def get_net(descr, dims):
 
-        return netTypes[descr["type"]](**descr["parameters"])
+        # Do not change the description, it may be used again
+        parameters = dict(descr["parameters"])
+        if "actFun" in parameters:
+            parameters["actFun"] = get_activation_functions(parameters["actFun"])
 
-    if "actFun" in descr["net1"]["parameters"]:
-        descr["net1"]["parameters"]["actFun"] = get_activation_functions(descr["net1"]["parameters"]["actFun"])
+        return netTypes[descr["type"]](**parameters)
 
     symms = tuple()
     for key in ["translation", "rotation", "reflection", "spinflip"]:
@@ -70,10 +72,6 @@ def init_net(descr, dims, seed=0):
 
     else:
 
-        if "actFun" in descr["net2"]["parameters"]:
-
-            descr["net2"]["parameters"]["actFun"] = get_activation_functions(descr["net2"]["parameters"]["actFun"])
-
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
         model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
-- 
2.43.0


From 4d28c15d328d5919f7767ad52c8ef57885699eb8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:21:24 +0000
Subject: [PATCH 36/36] fix: init_net with two networks passed arguments
 TwoNets does not have

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 5c3973c..80f9101 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -74,7 +74,7 @@ def init_net(descr, dims, seed=0):
 
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
-        model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
+        model = jVMC.nets.two_nets_wrapper.TwoNets((model1, model2))
         isGenerator = "sample" in dir(model1)
 
     avgFun = jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if isGenerator else jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp
-- 
2.43.0

