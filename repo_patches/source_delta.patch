From f187a6b9e746b89b737192c1b919c25c682ba612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/69] fix: keep target IDs and target data in the same order
 when targets have different numbers of spectra

DistTargetsCopy without MPI returned load-sorted local_target_ids() next to
local() in input order, and the multiprocessing scan paired load-sorted IDs
with data in local() order, so results of targets with different numbers of
spectra were assigned to each other.
---
 py/redrock/targets.py | 2 ++
 py/redrock/zscan.py   | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9a4780e..757b9d8 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -558,6 +558,8 @@ class DistTargetsCopy(DistTargets):
 
         self._my_data = None
         if comm is None:
+            # keep the input order, with IDs in the same order as the data
+            self._my_targets = list(self._alltargetids)
             self._my_data = targets
         else:
             tbuf = dict()
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 51f383f..14f5a96 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1053,8 +1053,10 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             for i in range(mp_procs):
                 if len(mpdist[i]) == 0:
                     continue
+                # target_ids and target_data must be in the same order
                 target_ids = mpdist[i]
-                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                local_targets = { x.id : x for x in targets.local() }
+                target_data = [ local_targets[x] for x in target_ids ]
                 p = mp.Process(target=_mp_calc_zchi2,
                     args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
                 procs.append(p)
-- 
2.43.0


From 8f71b2f5b9279de254a8dd6bec4fdec400c88866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 02/69] fix: apply IGM transmission in Template.eval

Fits multiply the redshifted template by the IGM transmission of the template,
but Template.eval (used for --model output and eval_model) did not, so rendered
best-fit models of objects with pixels blueward of rest-frame Lyman-alpha were
not the models that had been fit.
---
 py/redrock/templates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a12a86b..a063987 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -266,6 +266,12 @@ class Template(object):
         coeff = coeff[0:self.nbasis]
         flux = self.flux.T.dot(coeff).T
         model = trapz_rebin(self.wave*(1+z), flux, wave)
+
+        #- apply the same IGM transmission that was used when fitting coeff
+        T = transmission_Lyman(z, wave, model=self.igm_model, always_return_array=False)
+        if T is not None:
+            model *= T
+
         if R is not None:
             model = R.dot(model)
 
-- 
2.43.0


From ed32e940907b5e01699fdc33abedd2909d318569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 03/69] fix: eval_model without resolution matrices

eval_model documents R=None (and sets R=None per camera for dict input) but
indexed R unconditionally and raised TypeError.
---
 py/redrock/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a063987..54f3ca8 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -833,7 +833,7 @@ def eval_model(data, wave, R=None, templates=None):
         tx = templates[(data['SPECTYPE'][i], data['SUBTYPE'][i])]
         coeff = data['COEFF'][i][0:tx.nbasis]
         z = data['Z'][i]
-        models[i] = tx.eval(coeff, wave, z, R=R[i])
+        models[i] = tx.eval(coeff, wave, z, R=None if R is None else R[i])
 
     return models
 
-- 
2.43.0


From 656748bdd44117800e3569b0087e3e096cb0d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 04/69] fix: reuse of a saved chi2 scan with MPI

Every rank loaded the scan of all targets, refined only its own, and returned
all of them; merging then overwrote the redshift fits and metadata of earlier
ranks (KeyError 'zfit'). Keep only the local targets of each process.
---
 py/redrock/zfind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e2fd2fd..02bca63 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -290,6 +290,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
         results = read_zscan_redrock(chi2_scan)
+        # each process only keeps (and later returns) its own targets
+        results = { tid : results[tid] for tid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From dbc303d08561b52f33c521dae52c977c927721b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 05/69] fix: DistTargetsCopy with targets only on the root
 process

The documented use has the input targets on one process, but every rank
iterated over its own list: ranks without the targets skipped the broadcasts
that the root process was performing.
---
 py/redrock/targets.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 757b9d8..770e781 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -550,7 +550,13 @@ class DistTargetsCopy(DistTargets):
         # Distribute the targets among process weighted by the amount of work
         # to do for each target.
 
-        self._proc_targets = distribute_targets(targets, comm_size)
+        # Only the root process is required to have the input targets.
+
+        self._proc_targets = None
+        if comm_rank == root:
+            self._proc_targets = distribute_targets(targets, comm_size)
+        if comm is not None:
+            self._proc_targets = comm.bcast(self._proc_targets, root=root)
 
         self._my_targets = self._proc_targets[comm_rank]
 
@@ -563,7 +569,8 @@ class DistTargetsCopy(DistTargets):
             self._my_data = targets
         else:
             tbuf = dict()
-            for tg in targets:
+            for i in range(len(self._alltargetids)):
+                tg = targets[i] if comm_rank == root else None
                 recv = comm.bcast(tg, root=root)
                 if recv.id in self._my_targets:
                     tbuf[recv.id] = recv
-- 
2.43.0


From acdf40b556ba27400253972b175e3431cdc04cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/69] fix: more MPI processes than redshifts of a template

Processes left without redshifts crashed in rebin_template (max of an empty
array); they now hold an empty piece of the distributed template.
---
 py/redrock/templates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 54f3ca8..06d6746 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -578,6 +578,13 @@ class DistTemplate(object):
                 self._comm_size)
             myz = self._distredshifts[self._comm_rank]
 
+            # More processes than redshifts: nothing to rebin on this process
+            if len(myz) == 0:
+                data = { hs : np.zeros((0, len(w), self._template.nbasis))
+                         for hs, w in self._dwave.items() }
+                self._piece = DistTemplatePiece(self._comm_rank, myz, data)
+                return
+
         # In the case of not using MPI (comm == None), one process is rebinning
         # all the templates.  In that scenario, use multiprocessing
         # workers to do the rebinning.
-- 
2.43.0


From b54217d9632740c7cbba0b0d5c5f6dea629597a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 07/69] fix: rebin_template with a python float redshift

The documented 'myz (float or array of float)' raised AttributeError for
plain floats unless xmin and xmax were given.
---
 py/redrock/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index caa1b5c..3109701 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -488,9 +488,9 @@ def rebin_template(template, myz, dwave=None, dedges=None, use_gpu=False, xmin=N
     result = dict()
     #calculate xmin and xmax if not given
     if (xmin is None):
-        xmin = template.minwave*(1+myz.max())
+        xmin = template.minwave*(1+np.max(myz))
     if (xmax is None):
-        xmax = template.maxwave*(1+myz.min())
+        xmax = template.maxwave*(1+np.min(myz))
     #rebin all z and all bases in batch in parallel
     #and return dict of 3-d numpy / cupy arrays
     if dwave is not None:
-- 
2.43.0


From 56dccf4d80c8ecdbd26b7cfc02948e8a6d289b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 08/69] fix: Inoue14 Lyman-continuum LAF optical depth below
 z=1.2

The z<1.2 expression was overwritten by the one for 1.2<=z<4.7 because the
second mask did not exclude z<1.2.
---
 py/redrock/igm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 48afdfa..7d000b0 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -212,7 +212,7 @@ class Inoue14(object):
         y0 = x0 & (zS[:,None] < z1LAF)
         tLCLAF_value[y0] = 0.3248 * (power(lobs[y0]/lamL, 1.2) - (power(1.0+zS[:,None], -9e-1)*y0)[y0] * power(lobs[y0]/lamL, 2.1))
 
-        y0 = x0 & (zS[:,None] < z2LAF)
+        y0 = x0 & (zS[:,None] >= z1LAF) & (zS[:,None] < z2LAF)
         x1 = lobs >= lamL*(1+z1LAF)
         tLCLAF_value[y0 & x1] = 2.545e-2 * ((power(1.0+zS[:,None], 1.6)*y0)[y0 & x1] * power(lobs[y0 & x1]/lamL, 2.1) - power(lobs[y0 & x1]/lamL, 3.7))
         tLCLAF_value[y0 & ~x1] = 2.545e-2 * (power(1.0+zS[:,None], 1.6)*y0)[y0 & ~x1] * power(lobs[y0 & ~x1]/lamL, 2.1) + 0.3248 * power(lobs[y0 & ~x1]/lamL, 1.2) - 0.2496 * power(lobs[y0 & ~x1]/lamL, 2.1)
-- 
2.43.0


From 3b561e0306a8a2595fef043ddddea4053b8e8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 09/69] fix: coefficients of fallback redshifts in fitz

When the parabola minimum falls outside the fitted range, the redshift and chi2
of the lowest sampled point are reported, but the coefficients (and the IGM
transmission passed to archetypes) were those of the discarded parabola minimum,
or zeros.
---
 py/redrock/fitz.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 82bb65d..0d2887e 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -313,6 +313,13 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
             zbest = zz[imin]
             chi2min = zzchi2[imin]
 
+            #- coefficients and transmission must match the reported redshift
+            coeff = zzcoeff[imin:imin+1]
+            pca_coeff = coeff[0,:]
+            for k in list(dwave.keys()):
+                trans[k] = transmission_Lyman(np.array([zbest]), dwave[k], use_gpu=False,
+                                              always_return_array=False, model=template.igm_model)
+
         #- Initial minimum or best fit too close to edge of redshift range
         if zbest < redshifts[1] or zbest > redshifts[-2]:
             zwarn |= ZW.Z_FITLIMIT
-- 
2.43.0


From e4e970e7ced325a7cd82d5e675eb5c95ad4f31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 10/69] fix: coadd resolution weighted per output pixel; cosmic
 rejection with mean gradient per pixel and masked exposures

---
 py/redrock/targets.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 770e781..9b6bcba 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -287,27 +287,26 @@ class Target(object):
             weightedflux = None
             weights = None
             Rdiags = None
-            offsets = None
             nspec = 0
             flux=[] # references
             ivar=[] # references
+            Rmats=[] # references
             grad=[] # gradients, copy
             gradvar=[]
+            gradspec=[] # index of the spectrum of each gradient
             for s in self.spectra:
                 if s.wavehash != key: continue
                 nspec += 1
                 current_band = s.band
                 if wave is None :
                     wave = s.wave
-                    Rdiags = s.R.data * s.ivar
-                    offsets = s.R.offsets
                 else :
                     assert len(s.wave) == len(wave)
-                    Rdiags += s.R.data * s.ivar
                 flux.append(s.flux)
                 ivar.append(s.ivar)
+                Rmats.append(s.R)
 
-                if cosmics_nsig > 0 :
+                if cosmics_nsig > 0 and np.any(s.ivar>0) :
                     # interpolate over bad measurements
                     # to be able to compute gradient next
                     # to a bad pixel and identify oulier
@@ -330,6 +329,7 @@ class Target(object):
                     tflux[0]  = 0
                     grad.append(tflux)
                     gradvar.append(tvar)
+                    gradspec.append(nspec-1)
 
             flux=np.array(flux)
             ivar=np.array(ivar)
@@ -338,17 +338,16 @@ class Target(object):
                 # detect outliers by comparing spectra
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
-                nspec=grad.shape[0]
-                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar)
+                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
-                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
+                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(grad.shape[0]-1)
 
                 jj=np.where(chi2>cosmics_nsig**2)[0]
                 for j in jj :
                     k=np.argmax(gradivar[:,j]*deltagrad[:,j]**2)
                     #k=np.argmax(flux[:,j])
                     #print("masking spec",k,"wave=",wave[j],"flux=",flux[k,j])
-                    ivar[k][j]=0.
+                    ivar[gradspec[k]][j]=0.
 
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
@@ -356,8 +355,16 @@ class Target(object):
             isbad = (weights == 0)
             flux = weightedflux / (weights + isbad)
             flux[isbad] = unweightedflux[isbad] / nspec
-            Rdiags /= (weights + isbad)
-            nwave = Rdiags.shape[1]
+            # resolution of row i is averaged with the weights of pixel i;
+            # R.data[k,j] is in row j-offsets[k]
+            offsets = Rmats[0].offsets
+            nwave = len(wave)
+            rows = np.arange(nwave)[None,:] - offsets[:,None]
+            rows = rows.clip(0, nwave-1)
+            Rweights = (ivar + isbad) / (weights + nspec*isbad)
+            Rdiags = np.zeros(Rmats[0].data.shape)
+            for sR, w in zip(Rmats, Rweights):
+                Rdiags += sR.data * w[rows]
             R = scipy.sparse.dia_matrix((Rdiags, offsets),
                                             shape=(nwave, nwave))
             if cache_Rcsr:
-- 
2.43.0


From b7ee2d6df3e97321ce3338b6dff1494ce2f425eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 11/69] fix: do not wait forever for multiprocessing workers
 which have died

---
 py/redrock/utils.py | 33 +++++++++++++++++++++++++++++++++
 py/redrock/zfind.py |  5 +++--
 py/redrock/zscan.py |  7 ++++---
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index 599d88f..608c6d6 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -182,6 +182,39 @@ def mp_array(original):
     nd.shape = shape
     return nd
 
+def mp_get(queue, procs):
+    """Get the next item of a queue which is filled by worker processes.
+
+    Unlike queue.get(), this does not wait forever for an item from a worker
+    process which has died.
+
+    Args:
+        queue (multiprocessing.Queue): the queue.
+        procs (list): the multiprocessing.Process objects filling the queue.
+
+    Returns:
+        object: the next item of the queue.
+
+    Raises RuntimeError if a process has failed, or if all processes have
+    finished without adding another item to the queue.
+    """
+    from queue import Empty
+
+    while True:
+        finished = all(p.exitcode is not None for p in procs)
+        try:
+            return queue.get(timeout=1)
+        except Empty:
+            failed = [p for p in procs if p.exitcode not in (None, 0)]
+            if len(failed) > 0 or finished:
+                # the other workers would wait for somebody to empty the queue
+                for p in procs:
+                    p.terminate()
+                for p in procs:
+                    p.join()
+                raise RuntimeError("{} of {} multiprocessing workers failed"\
+                    .format(len(failed), len(procs)))
+
 def distribute_work(nproc, ids, weights=None, capacities=None):
     """Helper function to distribute work among processes with varying capacities.
 
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 02bca63..26272ad 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -17,7 +17,7 @@ import astropy.table
 
 from . import constants
 
-from .utils import elapsed, extra_columns_in_archetype_mode
+from .utils import elapsed, mp_get, extra_columns_in_archetype_mode
 
 from .targets import distribute_targets
 
@@ -99,6 +99,7 @@ def _mp_fitz(chi2, target_data, t, nminima, qout, archetype, use_gpu, deg_legend
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        raise
 
 def calc_deltachi2(chi2, z, zwarn, dvlimit=constants.max_velo_diff):
     '''
@@ -393,7 +394,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             for i in range(mp_procs):
                 if len(mpdist[i]) == 0:
                     continue
-                res = qout.get()
+                res = mp_get(qout, procs)
                 for rs in res:
                     results[rs[0]][ft]['zfit'] = rs[1]
 
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 14f5a96..7e4264f 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -30,7 +30,7 @@ cp = None
 #and attempts will be made to minimize memory usage to under 4 GB
 cp_memcheck = False
 
-from .utils import elapsed
+from .utils import elapsed, mp_get
 
 from .targets import distribute_targets
 
@@ -905,6 +905,7 @@ def _mp_calc_zchi2(indx, target_ids, target_data, t, use_gpu, qout, qprog):
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        raise
 
 
 def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
@@ -1072,7 +1073,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             tot = 0
             proglast = 0
             while (tot < ntarget):
-                cnt = qprog.get()
+                cnt = mp_get(qprog, procs)
                 tot += cnt
                 prg = int(100.0 * tot / ntarget)
                 if prg >= proglast + progincr:
@@ -1085,7 +1086,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             zcoeff = dict()
             penalty = dict()
             for _ in range(len(procs)):
-                res = qout.get()
+                res = mp_get(qout, procs)
                 tids = mpdist[res[0]]
                 for j,tid in enumerate(tids):
                     zchi2[tid] = res[1][j]
-- 
2.43.0


From 1df3d8c0c0bb266f9cd0e916fb23ce7583ba65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 12/69] fix: archetype fits without Legendre prior, and nearest
 archetypes without per-camera terms

---
 py/redrock/archetypes.py | 10 +++++++---
 py/redrock/fitz.py       |  8 ++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index dae679a..09ca574 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -284,7 +284,10 @@ class Archetype():
             (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False, bands=target.bands)
         else:
             #Use CPU mode for calc_zchi2 since small tdata
-            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False)
+            bounds = np.zeros((2, nbasis))
+            bounds[0][len(iBest):] = -np.inf # only the archetypes must have lower bound 0
+            bounds[1] = np.inf
+            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False, solve_matrices_algorithm='BVLS', solver_args={'bounds':bounds})
 
         sstype = ['%s'%(self._subtype[k]) for k in iBest] # subtypes of best archetypes
         fsstype = ';'.join(sstype)
@@ -362,8 +365,9 @@ class Archetype():
         # this logic is needed because the first fitting is done with just one archetype
         #and then nearest neighbour approach is implemented
         if n_nearest is not None:
-            nnearest_prior = prior.copy() # prior corresponding to nearest_nbh method
-            prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
+            nnearest_prior = prior # prior corresponding to nearest_nbh method
+            if prior is not None:
+                prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
 
         for hs, wave in dwave.items():
             if (trans[hs] is not None):
diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 0d2887e..fb9ef47 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -338,11 +338,11 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 chi2=chi2min, zz=zz, zzchi2=zzchi2,
                 coeff=coeff, fitmethod=template.method))
         else:
+            if per_camera:
+                ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
+            else:
+                ncamera = 1
             if prior_sigma is not None:
-                if per_camera:
-                    ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
-                else:
-                    ncamera = 1
                 if n_nearest is None:
                     prior = prior_on_coeffs(1, deg_legendre, prior_sigma, ncamera)
                 else:
-- 
2.43.0


From 8f5d883bee6554aa16bfe26daa36975f9bd58abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 13/69] fix: archetype fits and models of targets with several
 spectra per camera, and models with only Legendre terms

---
 py/redrock/targets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9b6bcba..53b966d 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -177,9 +177,11 @@ class Target(object):
         self._legendre = None
         self._gpulegendre = None
         self.nleg = 0
+        # one entry per camera, also if there are several spectra per camera
         self.bands = []
         for s in spectra:
-            self.bands.append(s.band)
+            if s.wavehash not in self.bands:
+                self.bands.append(s.wavehash)
 
     def eval_model(self, bestfit, templates, archetypes=None, nleg=None):
         """
@@ -212,7 +214,7 @@ class Target(object):
         fitmethod = bestfit['FITMETHOD']
 
         self.model = dict()
-        if np.all(coeff == 0.0):
+        if np.all(coeff == 0.0) and (fitmethod != 'ARCH' or np.all(bestfit['LEGCOEFF'] == 0.0)):
             # entirely masked data has coeffs=0
             for sp in self.spectra:
                 self.model[sp.wavehash] = np.zeros(len(sp.wave), dtype=np.float32)
@@ -221,9 +223,10 @@ class Target(object):
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
             if legcoeff.ndim==1:
-                legcoeff = [legcoeff for i in range(len(self.spectra))]
+                legcoeff = [legcoeff for i in range(len(self.bands))]
             ax = archetypes[spectype]
-            for i, sp in enumerate(self.spectra):
+            for sp in self.spectra:
+                i = self.bands.index(sp.wavehash)
                 self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[i])
 
         else:
-- 
2.43.0


From 182058a9973c405ac8527d9880d6c4d99eb66a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 14/69] fix: keep Legendre and PCA columns when archetypes are
 only used for some templates

---
 py/redrock/zfind.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 26272ad..8ad04e1 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -531,22 +531,26 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             ## Equivalent of astropy.table.vstack(tzfit) - vstack each array
 
             tzfit2 = dict()
-            for k in tzfit[0].keys():
+            # in archetype mode, tables of templates without archetypes lack some keys
+            allkeys = list()
+            for tmp in tzfit:
+                allkeys.extend([k for k in tmp.keys() if k not in allkeys])
+            for k in allkeys:
                 tzfit2[k] = list()
-                ref = tzfit[0][k]  # reference array
+                # reference array, the widest one if there are several
+                ref = max([tmp[k] for tmp in tzfit if k in tmp], key=lambda x: x.shape[1])
                 for i in range(len(tzfit)):
                     if k in tzfit[i].keys():
                         val = tzfit[i][k]
-                        if archetypes and k in pca_map:
-                            # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                     else:
                         row = tzfit[i]
                         if archetypes and k in pca_map and pca_map[k] in row:
                             val = row[pca_map[k]]
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                         elif k in zero_like_keys:
-                            val = np.zeros_like(ref)
+                            val = np.zeros((len(row['chi2']),)+ref.shape[1:], dtype=ref.dtype)
+                    if archetypes and k in pca_map:
+                        # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
+                        val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                     tzfit2[k].append(val)
 
                 tzfit2[k] = np.vstack(tzfit2[k])
-- 
2.43.0


From fe52500e30c0b45c1c7d7a171e145d6101adcbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 15/69] fix: archetype fits use the IGM transmission of the
 archetypes

---
 py/redrock/fitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index fb9ef47..4fb4cb7 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -349,6 +349,8 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                     prior = prior_on_coeffs(n_nearest, deg_legendre, prior_sigma, ncamera)
             else:
                 prior=None
+            if archetype.igm_model != template.igm_model:
+                trans = None # transmission of the archetypes, not of the template
             chi2min, coeff, fulltype = archetype.get_best_archetype(target,weights,flux,wflux,dwave,zbest, per_camera, n_nearest, trans=trans, use_gpu=use_gpu, prior=prior)
             del trans
             subtype = parse_fulltype(fulltype)[1]
-- 
2.43.0


From f8003582ababbaafb28cbbe67cf3b763038c775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 16/69] fix: eval_model of archetype fits with one Legendre
 term

---
 py/redrock/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 53b966d..70155d2 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -221,7 +221,7 @@ class Target(object):
         elif fitmethod == 'ARCH':
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
-            archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
+            archcoeff, legcoeff = coeff[0:narchetypes], np.atleast_1d(bestfit["LEGCOEFF"]) # scalar if only one term
             if legcoeff.ndim==1:
                 legcoeff = [legcoeff for i in range(len(self.bands))]
             ax = archetypes[spectype]
-- 
2.43.0


From 8603a903f98091e68283b0323234a80f37911676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 17/69] fix: apply MASK HDUs to their own spectra if some bands
 or files have none

---
 py/redrock/external/desi.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e319478..850f481 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -582,15 +582,16 @@ class DistTargetsDESI(DistTargets):
                 if comm is not None:
                     hdata = comm.bcast(hdata, root=0)
 
-                if hdata is not None:
-                    toff = 0
-                    for t in self._my_targets:
-                        if t in self._target_specs[sfile]:
-                            for trow in self._target_specs[sfile][t]:
+                #- count the spectra also if there is no mask for this band
+                toff = 0
+                for t in self._my_targets:
+                    if t in self._target_specs[sfile]:
+                        for trow in self._target_specs[sfile][t]:
+                            if hdata is not None:
                                 self._my_data[toff].spectra[tspec_mask[t]]\
                                     .ivar *= (hdata[trow] == 0)
-                                tspec_mask[t] += 1
-                        toff += 1
+                            tspec_mask[t] += 1
+                    toff += 1
 
                 extname = "{}_{}".format(b.upper(), "RESOLUTION")
                 hdata = None
-- 
2.43.0


From f3aae679eeb10e6cc21a9ff785008d4ad7fe4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 18/69] fix: keep targets selected by ID in file order so that
 REDSHIFTS and FIBERMAP rows match

---
 py/redrock/external/desi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 850f481..12a482d 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -348,7 +348,8 @@ class DistTargetsDESI(DistTargets):
             if targetids is None:
                 keep_targetids = coadd_fmap["TARGETID"]
             else:
-                keep_targetids = targetids
+                # selected targets of this file, in the order of the file
+                keep_targetids = coadd_fmap["TARGETID"][np.isin(coadd_fmap["TARGETID"], targetids)]
 
             # Select a subset of the target range from each file if desired.
 
-- 
2.43.0


From 7da322ebf9fff776240c798ae8c31e08b3d121e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 19/69] fix: first target without number of targets

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 12a482d..f2d7ce8 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -361,7 +361,7 @@ class DistTargetsDESI(DistTargets):
                     format(first_target))
 
             if n_target is None:
-                nkeep = len(keep_targetids)
+                nkeep = len(keep_targetids) - first_target
             else:
                 nkeep = n_target
 
-- 
2.43.0


From 4c356e82e8928749e1504ab8110f97ddda17c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 20/69] fix: write models of targets which lack a camera

---
 py/redrock/external/desi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index f2d7ce8..a252aa6 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1231,7 +1231,9 @@ def rrdesi(options=None, comm=None):
                 all_models_dict = dict()
                 wave_dict = targets.wavegrids()
                 for band in wave_dict:
-                    all_models_dict[band] = np.vstack([m[band] for m in all_models])[sort_indices]
+                    # zeros for targets which were not observed with this camera
+                    nomodel = np.zeros(len(wave_dict[band]))
+                    all_models_dict[band] = np.vstack([m.get(band, nomodel) for m in all_models])[sort_indices]
 
                 write_bestmodel(args.model, zbest, all_models_dict, wave_dict,
                                 templates, archetypes, spec_header=targets.header0)
-- 
2.43.0


From 6f366d67882e2fb587b9588936ff4a14ba4ffffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 21/69] fix: --model without --outfile

---
 py/redrock/external/desi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index a252aa6..f342258 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1156,7 +1156,7 @@ def rrdesi(options=None, comm=None):
                 write_zscan(args.details, scandata, zfit, clobber=True)
             stop = elapsed(start, "Writing zscan data took", comm=comm)
 
-        if args.outfile:
+        if args.outfile or args.model is not None:
             start = elapsed(None, "", comm=comm)
             if comm_rank == 0:
                 zbest = zfit[zfit['znum'] == 0]
@@ -1186,11 +1186,12 @@ def rrdesi(options=None, comm=None):
                 subtype_len = max(3, max_subtype_len)
                 zbest['SUBTYPE'] = zbest['SUBTYPE'].astype(f'U{subtype_len}')
 
-                write_zbest(args.outfile, zbest,
-                        targets.fibermap, targets.exp_fibermap,
-                        targets.tsnr2,
-                        templates, archetypes=archetypes,
-                        spec_header=targets.header0, secondary_headers=targets.secondary_headers)
+                if args.outfile:
+                    write_zbest(args.outfile, zbest,
+                            targets.fibermap, targets.exp_fibermap,
+                            targets.tsnr2,
+                            templates, archetypes=archetypes,
+                            spec_header=targets.header0, secondary_headers=targets.secondary_headers)
 
             if comm is not None:
                 zbest = comm.bcast(zbest, root=0)
-- 
2.43.0


From fec7c3c1f5d36562a00f76cb0ef7f9977dddd164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 22/69] fix: details file of archetype runs without Legendre
 terms

---
 py/redrock/results.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 151d6cd..df8e444 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -52,6 +52,11 @@ def write_zscan(filename, zscan, zfit, clobber=False):
             if zfit[colname].dtype.kind == 'U':
                 zfit.replace_column(colname, np.char.encode(zfit[colname], 'ascii'))
 
+    #- HDF5 has no zero-width columns (archetypes without Legendre terms)
+    for col in zfit.colnames:
+        if 0 in zfit[col].shape[1:]:
+            zfit.remove_column(col)
+
     #- convert columns to lower precision for final output
     for col in ['zerr', 'chi2', 'zz', 'zzchi2', 'coeff', 'deltachi2']:
         zfit[col] = zfit[col].astype(np.float32)
-- 
2.43.0


From 7d07f74c2fd02f84ce60942d375b9c0aa12d50c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 23/69] fix: read details files of archetype runs

---
 py/redrock/results.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index df8e444..b390590 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -171,6 +171,12 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
             spectype_col = 'spectype'
             subtype_col = 'subtype'
 
+        #- in archetype mode the template types are saved in extra columns
+        if 'pca_' + spectype_col.lower() in [c.lower() for c in zfit.colnames]:
+            prefix = 'PCA_' if upper else 'pca_'
+            spectype_col = prefix + spectype_col
+            subtype_col = prefix + subtype_col
+
         for zfit_tid in zfit.group_by( (targetid_col, spectype_col, subtype_col) ).groups:
             targetid = zfit_tid[targetid_col][0]
             spectype = zfit_tid[spectype_col][0]
@@ -204,8 +210,9 @@ def read_zfit(filename, select_targetids=None, upper=False):
 
         zfit = [fx[f'zfit/{tid}/zfit'][:] for tid in select_targetids]
         zfit = Table(np.hstack(zfit))
-        zfit.replace_column('spectype', encode_column(zfit['spectype']))
-        zfit.replace_column('subtype', encode_column(zfit['subtype']))
+        for colname in ('spectype', 'subtype', 'pca_spectype', 'pca_subtype'):
+            if colname in zfit.colnames:
+                zfit.replace_column(colname, encode_column(zfit[colname]))
 
     if upper:
         for colname in list(zfit.colnames):
-- 
2.43.0


From fd3d161020ec7f9c57875a375071760f8b554b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 24/69] fix: read fitmethod of details files as string

---
 py/redrock/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index b390590..0413cc4 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -210,7 +210,7 @@ def read_zfit(filename, select_targetids=None, upper=False):
 
         zfit = [fx[f'zfit/{tid}/zfit'][:] for tid in select_targetids]
         zfit = Table(np.hstack(zfit))
-        for colname in ('spectype', 'subtype', 'pca_spectype', 'pca_subtype'):
+        for colname in ('spectype', 'subtype', 'fitmethod', 'pca_spectype', 'pca_subtype'):
             if colname in zfit.colnames:
                 zfit.replace_column(colname, encode_column(zfit[colname]))
 
-- 
2.43.0


From 219eb5c8d6c4a0f5ab8f21c113fa2396d3a1e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 25/69] fix: reuse of a saved chi2 scan with fewer templates

---
 py/redrock/zfind.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 8ad04e1..ab8136f 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -291,8 +291,10 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
         results = read_zscan_redrock(chi2_scan)
-        # each process only keeps (and later returns) its own targets
-        results = { tid : results[tid] for tid in targets.local_target_ids() }
+        # each process only keeps (and later returns) its own targets,
+        # and only the templates which are fitted now
+        results = { tid : { t.template.full_type : results[tid][t.template.full_type] for t in templates }
+                    for tid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From a8ee67f0c6c89a4f5ad93361a31cc4f0acf850df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 26/69] fix: NNLS and BVLS coefficients minimize the chi2

---
 py/redrock/zscan.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 7e4264f..c374c75 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1107,6 +1107,27 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
 
     return results
 
+def _normal_to_least_squares(M, y):
+    """Return A, b such that A.T @ A = M and A.T @ b = y.
+
+    With bounds on x, minimizing |M*x - y| is not equivalent to minimizing
+    the chi2 = x.T*M*x - 2*x.T*y + const, but minimizing |A*x - b| is.
+
+    Args:
+        M (array): 2d symmetric positive semi-definite array
+        y (array): 1d array
+
+    Returns:
+        tuple: 2d array A and 1d array b (M and y if M is singular)
+
+    """
+    try:
+        # basis vectors without any weight don't matter (M=0 and y=0)
+        L = np.linalg.cholesky(M + np.diag(np.diag(M) == 0))
+    except np.linalg.LinAlgError:
+        return M, y
+    return L.T, np.linalg.solve(L, y)
+
 def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False):
     """Solve the matrix equation y = M*x for the unknown x using the
     specified algorithm.  The default is to use PCA via numpy or cupy
@@ -1162,14 +1183,14 @@ def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False)
             #Copy to CPU, run scipy.optimize.nnls, copy back to GPU
             for j in range(nz):
                 try:
-                    res = nnls(Mcpu[j,:,:], ycpu[j,:])
+                    res = nnls(*_normal_to_least_squares(Mcpu[j,:,:], ycpu[j,:]))
                     zcoeff[j,:] = res[0]
                 except Exception:
                     zcoeff[j,:] = HUGE_CHI2
             return cp.asarray(zcoeff)
         else:
             try:
-                res = nnls(M, y)
+                res = nnls(*_normal_to_least_squares(M, y))
                 zcoeff = res[0]
             except Exception:
                 raise np.linalg.LinAlgError
@@ -1190,14 +1211,14 @@ def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False)
             #Copy to CPU, run scipy.optimize.lsq_linear, copy back to GPU
             for j in range(nz):
                 try:
-                    res = lsq_linear(Mcpu[j,:,:], ycpu[j,:], bounds=bounds, method='bvls')
+                    res = lsq_linear(*_normal_to_least_squares(Mcpu[j,:,:], ycpu[j,:]), bounds=bounds, method='bvls')
                     zcoeff[j,:] = res.x
                 except np.linalg.LinAlgError:
                     zcoeff[j,:] = HUGE_CHI2
             return cp.asarray(zcoeff)
         else:
             try:
-                res = lsq_linear(M, y, bounds=bounds, method='bvls')
+                res = lsq_linear(*_normal_to_least_squares(M, y), bounds=bounds, method='bvls')
                 zcoeff = res.x
             except np.linalg.LinAlgError:
                 raise
-- 
2.43.0


From ca7fb37b069fe41dd8cb0626bb5c3d458aed2eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 27/69] fix: BOSS target IDs with 32-bit fiber IDs

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6e215aa..ce479f6 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -39,7 +39,7 @@ from ..archetypes import All_archetypes
 
 
 def platemjdfiber2targetid(plate, mjd, fiber):
-    return plate*1000000000 + mjd*10000 + fiber
+    return np.int64(plate)*1000000000 + np.int64(mjd)*10000 + np.int64(fiber)
 
 
 def targetid2platemjdfiber(targetid):
-- 
2.43.0


From a1bd95ba94fa4bdac718d4f657bae15b5e588d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 28/69] fix: BOSS fiber selection with numpy 2

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index ce479f6..7bd04f1 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -166,7 +166,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             assert plate == h[0].read_header()["PLATEID"]
         fs = h[5]["FIBERID"][:]
         if fiberid is not None:
-            w = np.in1d(fs,fiberid)
+            w = np.isin(fs,fiberid)
             fs = fs[w]
 
         fl = h[0].read()
-- 
2.43.0


From f133f00c8fc19f583d2694013c7181f368db992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 29/69] fix: BOSS brick names PLATE-MJD were truncated

---
 py/redrock/external/boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 7bd04f1..2978620 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -264,7 +264,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         # will end up as extra columns in the output ZBEST HDU.
         tmeta = dict()
         tmeta["BRICKNAME"] = bricknames[targetid]
-        tmeta["BRICKNAME_datatype"] = "S8"
+        tmeta["BRICKNAME_datatype"] = "S11"
         if len(spectra) > 0:
             targets.append(Target(targetid, spectra, coadd=coadd, meta=tmeta))
         else:
@@ -279,7 +279,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
 
     metatable = Table()
     metatable['TARGETID'] = targetids
-    bx = np.array([bricknames[t] for t in targetids], dtype='S8')
+    bx = np.array([bricknames[t] for t in targetids], dtype='S11')
     metatable['BRICKNAME'] = bx
 
     # metatable = Table(names=("TARGETID", "BRICKNAME"), dtype=("i8", "S8",))
-- 
2.43.0


From 2f903323db7c809424983397ce60bea8ad84fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 30/69] fix: BOSS selection of targets which are not in the
 files

---
 py/redrock/external/boss.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 2978620..c21fa16 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -252,10 +252,8 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         h.close()
         print("DEBUG: read {} ".format(infile))
 
-    if targetids == None:
-        targetids = sorted(list(dic_spectra.keys()))
-    else:
-        targetids = sorted(targetids)
+    # selected targets which are in the files
+    targetids = sorted(list(dic_spectra.keys()))
 
     targets = []
     for targetid in targetids:
-- 
2.43.0


From dd385c8a09a8fe9a14b14b34ceedbfd242215bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 31/69] fix: BOSS frames of plates without exposures in one
 camera

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index c21fa16..d07da30 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -128,7 +128,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             for c in cameras:
                 try:
                     nexp = spplate[0].read_header()["NEXP_{}".format(c.upper())]
-                except ValueError:
+                except (ValueError, KeyError):
                     print("DEBUG: spplate {} has no exposures in camera {} ".format(spplate_name,c))
                     continue
                 for i in range(1,nexp+1):
-- 
2.43.0


From 1be6c91474ea00017929522fdf73acab0f3289da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 32/69] fix: rrboss --mintarget without --ntargets

---
 py/redrock/external/boss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index d07da30..3822d82 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -447,9 +447,10 @@ def rrboss(options=None, comm=None):
             use_frames=args.use_frames, coadd=(not args.allspec),
             cache_Rcsr=True, use_andmask=args.use_andmask)
 
-        if args.ntargets is not None:
-            targets = targets[first_target:first_target+n_targets]
-            meta = meta[first_target:first_target+n_targets]
+        if first_target is not None:
+            last_target = None if n_targets is None else first_target+n_targets
+            targets = targets[first_target:last_target]
+            meta = meta[first_target:last_target]
 
         stop = elapsed(start, "Read of {} targets"\
             .format(len(targets)), comm=comm)
-- 
2.43.0


From 0624f9f67567213415f004c033e0bcde30848344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 33/69] fix: rrboss --archetypes

---
 py/redrock/external/boss.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 3822d82..0e36478 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -475,11 +475,16 @@ def rrboss(options=None, comm=None):
         # Compute the redshifts, including both the coarse scan and the
         # refinement.  This function only returns data on the rank 0 process.
 
+        archetypes = None
+        if args.archetypes is not None:
+            archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+
         start = elapsed(None, "", comm=comm)
 
         scandata, zfit = zfind(dtargets, dtemplates, mpprocs,
-            nminima=args.nminima, archetypes=args.archetypes,
-            priors=args.priors, chi2_scan=args.chi2_scan)
+            nminima=args.nminima, archetypes=archetypes,
+            priors=args.priors, chi2_scan=args.chi2_scan,
+            per_camera=False, deg_legendre=0, ncamera=len(dwave))
 
         stop = elapsed(start, "Computing redshifts took", comm=comm)
 
@@ -506,8 +511,7 @@ def rrboss(options=None, comm=None):
 
                 template_version = {t._template.full_type:t._template._version for t in dtemplates}
                 archetype_version = None
-                if not args.archetypes is None:
-                    archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+                if archetypes is not None:
                     archetype_version = {name:arch._version for name, arch in archetypes.items() }
                 write_zbest(args.zbest, zbest, template_version, archetype_version)
 
-- 
2.43.0


From a24cb710b6785bcdce4554a10073ec94e015eba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 34/69] fix: GPU rebinning read outside of the template at bin
 edges equal to its last wavelength

---
 py/redrock/rebin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index 3109701..e4f5ec6 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -427,6 +427,9 @@ def _trapz_rebin_batch_gpu(x, y, edges, myz, result_shape):
     #use serachsorted to find index for each boundary
     e2d = edges/(1+myz[:,None])
     idx = cp.searchsorted(x, e2d, side='right')#.astype(cp.int32)
+    #An edge at (or within rounding of) the first or last x is bracketed by the
+    #first or last two x; do not let the kernel read outside of x and y
+    idx = cp.clip(idx, 1, len(x)-1)
 
     # Load CUDA kernel
     cp_module = cp.RawModule(code=cuda_source)
-- 
2.43.0


From 77662b254f90424a47d5563ef5c44627fb3de4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 35/69] fix: GPU archetype rebinning compared rest-frame limits
 with observed bin edges

---
 py/redrock/archetypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 09ca574..3afa0dc 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -142,8 +142,8 @@ class Archetype():
         """
         if (use_gpu):
             import cupy as cp
-            xmin = self.minwave
-            xmax = self.maxwave
+            xmin = self.minwave*(1+z)
+            xmax = self.maxwave*(1+z)
             wave = self.gpuwave
             flux = self.gpuflux
         else:
-- 
2.43.0


From 9b9d9f5fb037a5073f7d48df205e5831cc132045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 36/69] fix: GPU kernel got a transposed archetype array
 without Legendre terms

---
 py/redrock/zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index c374c75..ad0780c 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -429,8 +429,10 @@ def _batch_dot_product_sparse_gpu(spectra, tdata):
         Rcsr_cols = cp.asarray(s.Rcsr.indices, cp.int32)
         Rcsr_indptr = cp.asarray(s.Rcsr.indptr, cp.int32)
         curr_tb = cp.empty((nt, ncols, nbasis))
+        #The kernel expects C order, but archetypes without Legendre terms are a transposed view
+        curr_tdata = cp.ascontiguousarray(tdata[key])
         #Launch kernel and syncrhronize
-        batch_dot_product_sparse_kernel((blocks,), (block_size,), (Rcsr_values, Rcsr_cols, Rcsr_indptr, tdata[key], curr_tb, nrows, ncols, nbasis, nt))
+        batch_dot_product_sparse_kernel((blocks,), (block_size,), (Rcsr_values, Rcsr_cols, Rcsr_indptr, curr_tdata, curr_tb, nrows, ncols, nbasis, nt))
 
         #Commented out synchronize - needed for timing kernels but we still
         #get execution of this kernel before data is needed for next kernel
-- 
2.43.0


From 62d0a1a26a9734a3bb34429cc7d31c5edc4d9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 37/69] fix: trapz_rebin accepted x and y of different lengths
 and read outside of them

---
 py/redrock/rebin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index e4f5ec6..52ea6f8 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -340,6 +340,9 @@ def trapz_rebin(x, y, xnew=None, edges=None, myz=None, use_gpu=False, xmin=None,
     if (edge_min < xmin or edge_max > xmax):
         raise ValueError('edges must be within input x range')
 
+    if len(x) != y.shape[-1]:
+        raise ValueError('x and y must have the same length')
+
     if (not use_gpu and scalar_z and len(y.shape) == 1):
         #Special case, call _trapz_rebin_1d directly
         result = np.zeros(nbins, dtype=np.float64)
-- 
2.43.0


From 7fca5e19b023d758387b8ebe7e59c8d22892fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 38/69] fix: rebin_template checked bin edges against the
 limits of another wavelength grid

---
 py/redrock/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index 52ea6f8..6a6a977 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -509,9 +509,9 @@ def rebin_template(template, myz, dwave=None, dedges=None, use_gpu=False, xmin=N
                 result[hs] = trapz_rebin(template.wave, template.flux, xnew=wave, myz=myz, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
     elif dedges is not None:
         #Handle the case where dedges is passed because edges is already computed
-        minedge = None
-        maxedge = None
         for hs, edges in dedges.items():
+            minedge = None
+            maxedge = None
             #Check if edges is a 1-d array or a tuple also containing scalar min/max values
             if type(edges) is tuple:
                 (edges, minedge, maxedge) = edges
-- 
2.43.0


From ec2c7a9d8d8bd2907db9421b8c7323d4f6da7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 39/69] fix: wrap-redrock started rrdesi without its required
 -i option

---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 767485d..11bd4ba 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -319,7 +319,7 @@ def run_redrock(args, comm=None):
         sys.stdout.flush()
 
         if args.datatype == 'desi':
-            cmd = 'rrdesi {}'.format(specfiles[i])
+            cmd = 'rrdesi -i {}'.format(specfiles[i])
         elif args.datatype == 'boss':
             cmd = 'rrboss --spplate {}'.format(specfiles[i])
 
-- 
2.43.0


From 40bf6c79dcc53aad1117628d78a921104e72950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 40/69] fix: wrap-redrock started rrboss with output options it
 does not have

---
 bin/wrap-redrock | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 11bd4ba..a6b5c28 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -324,7 +324,10 @@ def run_redrock(args, comm=None):
             cmd = 'rrboss --spplate {}'.format(specfiles[i])
 
         cmd += ' --nminima {}'.format(args.nminima)
-        cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
+        if args.datatype == 'desi':
+            cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
+        elif args.datatype == 'boss':
+            cmd += ' --zbest {} --output {}'.format(rrfiles[i], detailsfiles[i])
         logfile = rrfiles[i].replace('.fits', '.log')
         assert logfile != rrfiles[i]
 
-- 
2.43.0


From 4a26383d859a79e7217cab95124159f6d9884939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 41/69] fix: wrap-redrock failed instead of stopping when all
 files are already processed

---
 bin/wrap-redrock | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index a6b5c28..fc6d249 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -307,6 +307,10 @@ def run_redrock(args, comm=None):
         groups = comm.bcast(groups, root=0)
         specfiles = comm.bcast(specfiles, root=0)
 
+    #- Nothing left to do
+    if len(specfiles) == 0:
+        return
+
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-- 
2.43.0


From 086f9cf9c8018476c7ad7877fd7a6207a20830a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 42/69] fix: wrap-redrock --maxnodes below the number of MPI
 ranks failed for boss

---
 bin/wrap-redrock | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index fc6d249..7efec37 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -291,7 +291,8 @@ def run_redrock(args, comm=None):
     else:
         rank, size = comm.rank, comm.size
 
-    args.maxnodes = min(args.maxnodes, size)
+    #- one group of files per rank
+    args.maxnodes = size
 
     t0 = time.time()
     if rank == 0:
-- 
2.43.0


From 6ed317ebeeb183e1fdf4a47053e0d185fcc9324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 43/69] fix: the job planned by wrap-redrock --plan lost the
 datatype, prefix, nminima and archetypes options

---
 bin/wrap-redrock | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 7efec37..8f87058 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -279,6 +279,10 @@ def plan(args, comm=None):
         print('nodes=$SLURM_JOB_NUM_NODES')
         rrcmd = '{} --mp {} --reduxdir {}'.format(
             os.path.abspath(__file__), args.mp, args.reduxdir)
+        rrcmd += ' --datatype {} --prefix {} --nminima {}'.format(
+            args.datatype, args.prefix, args.nminima)
+        if args.archetypes is not None:
+            rrcmd += ' --archetypes {}'.format(args.archetypes)
         if args.outdir is not None:
             rrcmd += ' --outdir {}'.format(os.path.abspath(args.outdir))
         print('srun -N $nodes -n $nodes -c {} {}'.format(maxproc, rrcmd))
-- 
2.43.0


From b53ea3f75e4cf0de4b6b648d49bf36e3916d7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 44/69] fix: wrap-redrock --plan failed for boss with few
 processes per node

---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 8f87058..ba426b1 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -219,7 +219,7 @@ def plan(args, comm=None):
         #- BOSS files all have the same number of spectra, so no load balancing
         groups = np.array_split(np.arange(len(specfiles)), args.maxnodes)
         ntargets = [1000*len(x) for x in groups]
-        grouptimes = [30 + 250*len(x) for x in groups]
+        grouptimes = np.array([30.0 + 250*len(x) for x in groups])
     else:
         raise ValueError('Unknown --datatype {}'.format(args.datatype))
 
-- 
2.43.0


From c200729f1369a972d070f5b1696e27b591dc3099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 45/69] fix: accept a pathlib.Path in load_templates and for a
 single template file in find_templates

---
 py/redrock/templates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 06d6746..dbfc3f8 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -328,6 +328,8 @@ def find_templates(template_path=None):
     Returns list of template files to use
     """
     template_path = get_template_dir(template_path)
+    if isinstance(template_path, os.PathLike):
+        template_path = os.fspath(template_path)
     if isinstance(template_path, (str, pathlib.PosixPath)) and not os.path.exists(template_path):
         raise ValueError("ERROR: can't find template_path, $RR_TEMPLATE_DIR, or (rrcode)/data/templates/")
     else:
@@ -460,7 +462,7 @@ def load_templates(template_path=None, zscan_galaxy=None, zscan_star=None, zscan
     Note: this always returns a list/dict, even if template_path is a path to a
     single template file.
     """
-    if isinstance(template_path, (str, type(None))):
+    if isinstance(template_path, (str, os.PathLike, type(None))):
         template_path = find_templates(template_path)
 
     print(f'Reading templates from {template_path}')
-- 
2.43.0


From 64af8e14ff5c62d19f1eff15cf901803c71da818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 46/69] fix: keep all template coefficients in pca_coeff of
 types without archetypes

---
 py/redrock/zfind.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index ab8136f..8f31ebf 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -540,7 +540,11 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             for k in allkeys:
                 tzfit2[k] = list()
                 # reference array, the widest one if there are several
-                ref = max([tmp[k] for tmp in tzfit if k in tmp], key=lambda x: x.shape[1])
+                arrays = [tmp[k] for tmp in tzfit if k in tmp]
+                if archetypes and k in pca_map:
+                    # templates without archetypes contribute the column of their own fit
+                    arrays.extend([tmp[pca_map[k]] for tmp in tzfit if k not in tmp and pca_map[k] in tmp])
+                ref = max(arrays, key=lambda x: x.shape[1])
                 for i in range(len(tzfit)):
                     if k in tzfit[i].keys():
                         val = tzfit[i][k]
-- 
2.43.0


From e19d4537536e1998978321b54b1f591d8a60a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 47/69] fix: keep an earlier details file until the new one is
 complete

---
 py/redrock/results.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 0413cc4..e85660a 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -32,13 +32,11 @@ def write_zscan(filename, zscan, zfit, clobber=False):
         filename (str): the output file path.
         zscan (dict): the full set of fit results.
         zfit (Table): the best fit redshift results.
-        clobber (bool): if True, delete the file if it exists.
+        clobber (bool): if True, replace the file if it exists.
 
     """
     import h5py
     filename = os.path.expandvars(filename)
-    if clobber and os.path.exists(filename):
-        os.remove(filename)
 
     outdir = os.path.dirname(os.path.abspath(filename))
     if not os.path.exists(outdir):
@@ -99,6 +97,7 @@ def write_zscan(filename, zscan, zfit, clobber=False):
         fx['zfit/{}/zfit'.format(targetid)] = zfit[ii].as_array()
 
     fx.close()
+    #- an earlier file is kept until the new one is complete
     os.rename(tempfile, filename)
 
 
-- 
2.43.0


From 2defac33e9f62c6ba99d6b3808865ad496aa5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 48/69] fix: keep the table headers of the first input file,
 not of the last

---
 py/redrock/external/desi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index f342258..7ede135 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -299,13 +299,13 @@ class DistTargetsDESI(DistTargets):
                     input_coadded = True
                     coadd_fmap = encode_table(Table(hdus["FIBERMAP"].data,
                         copy=True).as_array())
-                    self.secondary_headers["FIBERMAP"] = hdus["FIBERMAP"].header.copy()
+                    self.secondary_headers.setdefault("FIBERMAP", hdus["FIBERMAP"].header.copy())
                     exp_fmap = encode_table(Table(hdus["EXP_FIBERMAP"].data,
                         copy=True).as_array())
-                    self.secondary_headers["EXP_FIBERMAP"] = hdus["EXP_FIBERMAP"].header.copy()
+                    self.secondary_headers.setdefault("EXP_FIBERMAP", hdus["EXP_FIBERMAP"].header.copy())
                     tsnr2 = encode_table(Table(hdus["SCORES"].data,
                         copy=True).as_array())
-                    self.secondary_headers["SCORES"] = hdus["SCORES"].header.copy()
+                    self.secondary_headers.setdefault("SCORES", hdus["SCORES"].header.copy())
                     for col in tsnr2.colnames.copy():
                         if col == 'TARGETID' or col.startswith('TSNR2_'):
                             continue
@@ -315,7 +315,7 @@ class DistTargetsDESI(DistTargets):
                     input_coadded = False
                     tmpfmap = encode_table(Table(hdus["FIBERMAP"].data,
                         copy=True).as_array())
-                    self.secondary_headers["FIBERMAP"] = hdus["FIBERMAP"].header.copy()
+                    self.secondary_headers.setdefault("FIBERMAP", hdus["FIBERMAP"].header.copy())
                     assert 'COADD_NUMEXP' not in tmpfmap.dtype.names
 
                     if np.all(tmpfmap['TILEID'] == tmpfmap['TILEID'][0]):
@@ -327,7 +327,7 @@ class DistTargetsDESI(DistTargets):
 
                     scores = encode_table(Table(hdus["SCORES"].data,
                         copy=True).as_array())
-                    self.secondary_headers["SCORES"] = hdus["SCORES"].header.copy()
+                    self.secondary_headers.setdefault("SCORES", hdus["SCORES"].header.copy())
                     tsnr2 = Table(compute_coadd_tsnr_scores(scores)[0])
 
                     #- we later rely upon exp_fmap having same order as the
-- 
2.43.0


From 46d69d4d52e806ca5fe7f5d0f68b495f261aa5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 49/69] fix: Target.legendre kept the GPU copy of another
 number of terms

---
 py/redrock/targets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 70155d2..54f754f 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -250,6 +250,7 @@ class Target(object):
         dwave = { s.wavehash:s.wave for s in self.spectra }
         self._legendre = { hs:np.array([scipy.special.legendre(i)(reduced_wavelength(w)) for i in range(nleg)]) for hs, w in dwave.items() }
         self.nleg = nleg
+        self._gpulegendre = None # copies of another number of terms
         if (use_gpu):
             import cupy as cp
             self._gpulegendre = { hs:cp.asarray(self._legendre[hs]) for hs in self._legendre }
-- 
2.43.0


From f741c5996da2cf40efc909906c7fe042a89569b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 50/69] fix: plotted template models had a factor 1+z that the
 fitted models do not have

---
 py/redrock/plotspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index ffdc60e..14f611c 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -166,7 +166,7 @@ class PlotSpec(object):
             if self.archetypes:
                 mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
             else:
-                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z']) * (1+zz['z'])
+                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
             flux = spec.flux.copy()
             isbad = (spec.ivar == 0)
-- 
2.43.0


From 03151e0e865324eff643e14291fba488c0cff404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 51/69] fix: PlotSpec did not draw the scans of templates with
 a subtype

---
 py/redrock/plotspec.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 14f611c..88b3cb8 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -9,7 +9,7 @@ import numpy as np
 
 from . import zwarning
 
-from .templates import make_fulltype
+from .templates import make_fulltype, parse_fulltype
 
 class PlotSpec(object):
     def __init__(self, targets, templates, zscan, zfit, truth=None, archetypes=False):
@@ -122,12 +122,17 @@ class PlotSpec(object):
 
         self._ax1.clear()
         for spectype, fmt in [('STAR', 'k-'), ('GALAXY', 'b-'), ('QSO', 'g-')]:
-            if spectype in self.zscan[target.id]:
-                zx = self.zscan[target.id][spectype]
+            #- there can be several templates (subtypes) per spectype
+            label = spectype
+            for ft in self.zscan[target.id]:
+                if parse_fulltype(ft)[0] != spectype:
+                    continue
+                zx = self.zscan[target.id][ft]
                 self._ax1.plot(zx['redshifts'], zx['zchi2'], fmt, alpha=0.2,
                     label='_none_')
                 self._ax1.plot(zx['redshifts'], zx['zchi2']+zx['penalty'], fmt,
-                    label=spectype)
+                    label=label)
+                label = '_none_'
 
         self._ax1.plot(zfit['z'], zfit['chi2'], 'r.', label='_none_')
         for row in zfit:
-- 
2.43.0


From 4588939c239d917d6d6129be674098fcb9ccbaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 52/69] fix: PlotSpec failed for archetype fits with Legendre
 terms per camera, without them, or of types without archetypes

---
 py/redrock/plotspec.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 88b3cb8..6111a28 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -106,8 +106,8 @@ class PlotSpec(object):
         coeff = zz['coeff']
 
         fulltype = make_fulltype(zz['spectype'], zz['subtype'])
-        if self.archetypes:
-            dwave = { s.wavehash:s.wave for s in target.spectra }
+        use_archetype = bool(self.archetypes) and zz['fitmethod'] == 'ARCH'
+        if use_archetype:
             tp = self.archetypes.archetypes[zz['spectype']]
         else:
             tp = self.templates[fulltype]
@@ -168,8 +168,13 @@ class PlotSpec(object):
         ymin = ymax = 0.0
         specs_to_read = target.spectra
         for spec in specs_to_read:
-            if self.archetypes:
-                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
+            if use_archetype:
+                legcoeff = None
+                if 'legcoeff' in zz.colnames:
+                    legcoeff = np.atleast_1d(zz['legcoeff'])
+                    if legcoeff.ndim > 1: #- one row per camera
+                        legcoeff = legcoeff[target.bands.index(spec.wavehash)]
+                mx = tp.eval(zz['subtype'], np.atleast_1d(coeff), spec.wave, zz['z'], legcoeff=legcoeff)
             else:
                 mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
-- 
2.43.0


From 46471f98f9db75ba757629a00476826d379f6ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 53/69] fix: rrplot ignored all DESI spectra files but the
 first

---
 bin/rrplot | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/rrplot b/bin/rrplot
index 692a525..1bf0eed 100755
--- a/bin/rrplot
+++ b/bin/rrplot
@@ -56,7 +56,7 @@ else:
 #- Data
 if args.datatype=='desi':
     from redrock.external import desi
-    targets = desi.DistTargetsDESI(args.specfile[0], targetids=targetids, coadd=(not args.allspec))._my_data
+    targets = desi.DistTargetsDESI(args.specfile, targetids=targetids, coadd=(not args.allspec))._my_data
 elif args.datatype=='boss':
     from redrock.external import boss
     targets, targetids = boss.read_spectra(args.specfile, targetids=targetids, coadd=(not args.allspec))
-- 
2.43.0


From c42dfd26c0e74523e0492f22b0d9602c71c0651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:32 +0000
Subject: [PATCH 54/69] fix: more nearest archetypes than template coefficients
 failed with shared Legendre terms

---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 8f31ebf..a466ca6 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -710,7 +710,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         else:
             ntarg, ncoeff = allzfit['coeff'].shape
 
-        if ncoeff != maxcoeff:
+        if ncoeff < maxcoeff:
             coeff = np.zeros((ntarg, maxcoeff), dtype=allzfit['coeff'].dtype)
             coeff[:,0:ncoeff] = allzfit['coeff']
             allzfit.replace_column('coeff', coeff)
-- 
2.43.0


From 3cddb5c2cd2a8c9cc5241d95791f3650a61bc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:45 +0000
Subject: [PATCH 55/69] fix: rrqsotemplate and rrstarwdtemplate could not write
 their output with current astropy

---
 bin/rrqsotemplate    | 2 +-
 bin/rrstarwdtemplate | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/rrqsotemplate b/bin/rrqsotemplate
index a9e45c6..18efec8 100755
--- a/bin/rrqsotemplate
+++ b/bin/rrqsotemplate
@@ -47,7 +47,7 @@ hdus.append(fits.PrimaryHDU(eigenboss, header=header))
 # c = np.zeros((10, eigenboss.shape[0]))
 # hdus.append(fits.ImageHDU(c, name='ARCHETYPE_COEFF'))
 
-hdus.writeto(opts.outfile, clobber=True)
+hdus.writeto(opts.outfile, overwrite=True)
 print('RR: Wrote '+opts.outfile)
 
 
diff --git a/bin/rrstarwdtemplate b/bin/rrstarwdtemplate
index 00fe6f5..75c5a29 100755
--- a/bin/rrstarwdtemplate
+++ b/bin/rrstarwdtemplate
@@ -90,5 +90,5 @@ hdus.append(fits.PrimaryHDU(model.eigvec, header=header))
 hdus.append(fits.ImageHDU(model.coeff, name='ARCHETYPE_COEFF'))
 
 outfile = outbase + '-WD' + outext
-hdus.writeto(outfile, clobber=True)
+hdus.writeto(outfile, overwrite=True)
 print('RR: Wrote '+outfile)
-- 
2.43.0


From 041b23e16c60e9e471a8da19a3c93c6b1c9acf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:45 +0000
Subject: [PATCH 56/69] fix: install_redrock_templates did not name the version
 it failed to install

---
 bin/install_redrock_templates | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/install_redrock_templates b/bin/install_redrock_templates
index 3da3044..fa7e80d 100755
--- a/bin/install_redrock_templates
+++ b/bin/install_redrock_templates
@@ -54,7 +54,7 @@ def main():
         if len(p.stderr)>0:
             print(p.stderr.decode())
 
-        print('ERROR: failed to install redrock-templates/{args.version}')
+        print(f'ERROR: failed to install redrock-templates/{args.version}')
         return p.returncode
 
     #- Check that the installation worked
-- 
2.43.0


From c713b0f3f9957cd0988eccd1ef92ee4f6e7d2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 57/69] fix: template types longer than six characters were cut
 in the redshift table

---
 py/redrock/zfind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index a466ca6..a9a782b 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -694,7 +694,9 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             allzfit.replace_column('subtype', allzfit['subtype'].astype(dtype))
 
         if allzfit['spectype'].dtype != '<U6':
-            allzfit.replace_column('spectype',allzfit['spectype'].astype('<U6'))
+            # keep at least U6, but don't cut longer types
+            max_length = max(6, max(len(s) for s in allzfit['spectype']))
+            allzfit.replace_column('spectype', allzfit['spectype'].astype(f'<U{max_length}'))
 
         if archetypes is None or not per_camera:
             maxcoeff = np.max([t.template.nbasis for t in templates])
-- 
2.43.0


From 38193e4e956dcd6ab410406e8d2befb5a19c312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 58/69] fix: more nearest archetypes than there are archetypes
 failed with Legendre terms per camera

---
 py/redrock/archetypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 3afa0dc..68e2530 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -258,6 +258,9 @@ class Archetype():
 
         nleg = legendre[list(legendre.keys())[0]].shape[0]
         iBest = np.argsort(zzchi2)[0:n_nearest]
+        if prior is not None and len(iBest) < n_nearest:
+            # fewer archetypes than requested; only Legendre terms have a prior
+            prior = prior[n_nearest-len(iBest):,][:,n_nearest-len(iBest):]
         tdata = dict()
         if (binned is not None):
             if (use_gpu):
@@ -281,7 +284,7 @@ class Archetype():
 
         if per_camera:
             #Use CPU mode since small tdata
-            (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False, bands=target.bands)
+            (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=len(iBest), prior=prior, use_gpu=False, bands=target.bands)
         else:
             #Use CPU mode for calc_zchi2 since small tdata
             bounds = np.zeros((2, nbasis))
-- 
2.43.0


From d2bd6d3bcc2ca7717298830bf420aee916aa1ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 59/69] fix: rrboss without MPI went on after refusing its
 arguments

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 0e36478..6eb78ef 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -386,6 +386,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
         if (args.targetids is not None) and ((args.mintarget is not None) \
             or (args.ntargets is not None)):
@@ -393,6 +395,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
     targetids = None
     if args.targetids is not None:
-- 
2.43.0


From 8d43ee654edb298f19e6067f413f77e87727a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 60/69] fix: bounded fits with linearly dependent basis vectors
 did not minimize the chi2

---
 py/redrock/zscan.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index ad0780c..643d777 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1120,14 +1120,18 @@ def _normal_to_least_squares(M, y):
         y (array): 1d array
 
     Returns:
-        tuple: 2d array A and 1d array b (M and y if M is singular)
+        tuple: 2d array A and 1d array b
 
     """
     try:
         # basis vectors without any weight don't matter (M=0 and y=0)
         L = np.linalg.cholesky(M + np.diag(np.diag(M) == 0))
     except np.linalg.LinAlgError:
-        return M, y
+        # M is singular, e.g. for linearly dependent basis vectors
+        w, V = np.linalg.eigh(M)
+        keep = w > len(w)*np.finfo(w.dtype).eps*w[-1]
+        A = np.sqrt(w[keep])[:,None] * V[:,keep].T
+        return A, V[:,keep].T.dot(y) / np.sqrt(w[keep])
     return L.T, np.linalg.solve(L, y)
 
 def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False):
-- 
2.43.0


From 967130575449560dbe68306dad9ac5da2258c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:16 +0000
Subject: [PATCH 61/69] fix: template fits flagged NEGATIVE_MODEL if there are
 archetypes of as many other types

---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index a9a782b..b302e32 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -570,7 +570,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             tzfit['targetid'] = np.array([tid]*l)
 
             if (archetypes):
-                if (len(archetype_spectype)==len(all_spectype)):
+                if (set(archetype_spectype)==set(all_spectype)):
                     if n_nearest is None:
                         if tzfit["coeff"].ndim==1: ## this makes sure that code doesn't fail if --archetypes-no-legendre is provided
                             tzfit["coeff"] = tzfit["coeff"].reshape(-1, 1)
-- 
2.43.0


From 29eee39c2a9a0f2984aba3ea85913fcdeece96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:32 +0000
Subject: [PATCH 62/69] fix: archetype fits per camera failed for targets
 lacking a camera

---
 py/redrock/zfind.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index b302e32..9a56a7c 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -492,6 +492,12 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                     else:
                         spectype, subtype = parse_fulltype(fulltype)
 
+                #Targets observed with fewer cameras than others have fewer
+                #rows of Legendre coefficients
+                if per_camera and 'legcoeff' in tmp and tmp['legcoeff'].shape[1] < ncamera:
+                    nmissing = ncamera - tmp['legcoeff'].shape[1]
+                    tmp['legcoeff'] = np.pad(tmp['legcoeff'], ((0,0),(0,nmissing),(0,0)))
+
                 #Have to create arrays of correct length since using dict of
                 #np arrays instead of astropy Table
                 nmin = len(tmp['chi2'])
-- 
2.43.0


From e0aa0db447b37a00522bff9b064ab3a8a5c90148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:54 +0000
Subject: [PATCH 63/69] fix: candidate numbers above 127 and more than 127
 coefficients wrapped in the details file

---
 py/redrock/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index e85660a..ac9623f 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -61,8 +61,8 @@ def write_zscan(filename, zscan, zfit, clobber=False):
 
     zfit['zwarn'] = zfit['zwarn'].astype(np.int32)
     zfit['npixels'] = zfit['npixels'].astype(np.int32)
-    zfit['znum'] = zfit['znum'].astype(np.int8)
-    zfit['ncoeff'] = zfit['ncoeff'].astype(np.int8)
+    zfit['znum'] = zfit['znum'].astype(np.int16)
+    zfit['ncoeff'] = zfit['ncoeff'].astype(np.int16)
 
     zbest = zfit[zfit['znum'] == 0]
     zbest.remove_column('znum')
-- 
2.43.0


From adc288896936140ed4a4495fa44ce236a69413a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 64/69] fix: Legendre coefficients per camera of a single
 camera were flattened across rows

---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 9a56a7c..55772ee 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -566,7 +566,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                     tzfit2[k].append(val)
 
                 tzfit2[k] = np.vstack(tzfit2[k])
-                if (k != 'coeff') and (tzfit2[k].shape[1] == 1):
+                if (k != 'coeff') and (tzfit2[k].ndim == 2) and (tzfit2[k].shape[1] == 1):
                     tzfit2[k] = tzfit2[k].flatten()
             tzfit = tzfit2
 
-- 
2.43.0


From a6bc056a78f7d971eb4cd40e78b83035bcff71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:41 +0000
Subject: [PATCH 65/69] fix: rrboss --use-frames looked for the frames in / if
 the spPlate file is named without a directory

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6eb78ef..9acc580 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -121,7 +121,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             photoPlate = fitsio.FITS(spplate_name.replace('spPlate','photoPosPlate'))
 
         if use_frames:
-            path = os.path.dirname(spplate_name)
+            path = os.path.dirname(os.path.abspath(spplate_name))
             cameras = ['b1','r1','b2','r2']
 
             nexp_tot=0
-- 
2.43.0


From 6d30827a902cfd3f9bed977df79d66173ba2e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 66/69] fix: rrdesi --model compared target IDs as floats (and
 could swap models) if an MPI rank has no targets

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 7ede135..b6a8451 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1218,7 +1218,7 @@ def rrdesi(options=None, comm=None):
                 all_models = list(itertools.chain.from_iterable(all_models))
 
                 #- find sort orrder to match zbest
-                all_targetids = np.concatenate(all_targetids)
+                all_targetids = np.array(list(itertools.chain.from_iterable(all_targetids)))
                 xsorted = np.argsort(all_targetids)
                 ypos = np.searchsorted(all_targetids[xsorted], zbest['TARGETID'])
                 sort_indices = xsorted[ypos]
-- 
2.43.0


From 7b9463910614afbff005d3746003770f3cb792fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 67/69] fix: rrdesi failed for an archetype file whose name has
 no dash

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index b6a8451..945f0d5 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -893,7 +893,7 @@ def rrdesi(options=None, comm=None):
 
                 if os.path.isfile(args.archetypes):
                     print('Archetype is a file and it exists and readable')
-                    print('Archetype will only be applied to SPECTYPE %s'%(os.path.basename(args.archetypes).split('-')[1].split('.')[0].upper()))
+                    print('Archetype will only be applied to SPECTYPE %s'%(Archetype(args.archetypes).template_type))
             else:
                 print("ERROR: can't find archetypes_dir or it is unreadable")
                 sys.stdout.flush()
-- 
2.43.0


From c9613981435ebb4bd088fc8036472dc06df676d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 68/69] fix: rrboss --zbest failed at the end of the run if its
 directory did not exist

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 9acc580..7f8c4fc 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -72,6 +72,10 @@ def write_zbest(outfile, zbest, template_version, archetype_version):
     hx.append(fits.PrimaryHDU(header=header))
     hx.append(fits.convenience.table_to_hdu(zbest))
     outfile = os.path.expandvars(outfile)
+    outdir = os.path.dirname(os.path.abspath(outfile))
+    if not os.path.exists(outdir):
+        os.makedirs(outdir)
+
     tempfile = outfile + '.tmp'
     hx.writeto(tempfile, overwrite=True)
     os.rename(tempfile, outfile)
-- 
2.43.0


From 2e5af0ce08996ccabc13777a257971529ec69fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:27 +0000
Subject: [PATCH 69/69] fix: coadd of spectra whose resolution matrices have
 other diagonals or another order of them

---
 py/redrock/targets.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 54f754f..442a1e3 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -361,14 +361,18 @@ class Target(object):
             flux[isbad] = unweightedflux[isbad] / nspec
             # resolution of row i is averaged with the weights of pixel i;
             # R.data[k,j] is in row j-offsets[k]
+            # the spectra can have other diagonals, or the same in another order
             offsets = Rmats[0].offsets
+            if any(not np.array_equal(sR.offsets, offsets) for sR in Rmats):
+                offsets = np.unique(np.concatenate([sR.offsets for sR in Rmats]))
             nwave = len(wave)
             rows = np.arange(nwave)[None,:] - offsets[:,None]
             rows = rows.clip(0, nwave-1)
             Rweights = (ivar + isbad) / (weights + nspec*isbad)
-            Rdiags = np.zeros(Rmats[0].data.shape)
+            Rdiags = np.zeros((len(offsets), nwave))
             for sR, w in zip(Rmats, Rweights):
-                Rdiags += sR.data * w[rows]
+                k = [list(offsets).index(o) for o in sR.offsets]
+                Rdiags[k] += sR.data * w[rows[k]]
             R = scipy.sparse.dia_matrix((Rdiags, offsets),
                                             shape=(nwave, nwave))
             if cache_Rcsr:
-- 
2.43.0

