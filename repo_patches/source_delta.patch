From 18aae462398c11e8d96ef1bc7d0fee92b66c7335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 01/46] fix: digests distinguish arrays beyond their
 abbreviated text and adjacent values

---
 acoular/internal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index f29480d..022ea96 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -4,6 +4,15 @@
 
 from hashlib import md5
 
+from numpy import ndarray
+
+
+def _to_bytes(vobj):
+    # the string of an array is rounded and, for many elements, abbreviated
+    if isinstance(vobj, ndarray) and not vobj.dtype.hasobject:
+        return f'{vobj.dtype}{vobj.shape}'.encode() + vobj.tobytes()
+    return str(vobj).encode('UTF-8')
+
 
 def digest(obj, name='digest'):
     str_ = [str(obj.__class__).encode('UTF-8')]
@@ -12,10 +21,10 @@ def digest(obj, name='digest'):
         try:
             for i in do_.split('.'):
                 vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
-            str_.append(str(vobj).encode('UTF-8'))
+            str_.append(_to_bytes(vobj))
         except:  # noqa: E722
             pass
-    return '_' + md5(b''.join(str_)).hexdigest()
+    return '_' + md5(b'\0'.join(str_)).hexdigest()
 
 
 def ldigest(obj_list):
-- 
2.43.0


From dee6c0b070464df619bed88f7eac35cd7f53461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 02/46] fix: SampleSplitter distributes every block exactly
 once and in order under threads, overflow is judged per buffer

---
 acoular/process.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 856c30a..6adf3d8 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -496,6 +496,13 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # Fetching a block and distributing it to all buffers must not be interleaved
+    _fill_lock = Instance(threading.Semaphore, ())
+
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        self._fill_lock  # create the lock before it is shared between threads # noqa: B018
+
     def _create_block_buffer(self, obj, buffer_size=None):
         if buffer_size is None:
             buffer_size = self.buffer_size if isinstance(self.buffer_size, int) else self.buffer_size[obj]
@@ -525,7 +532,7 @@ class SampleSplitter(InOut):
 
     def _inspect_buffer_levels(self, inspect_objs):
         for obj in inspect_objs:
-            if len(self.block_buffer[obj]) == self.buffer_size:
+            if len(self.block_buffer[obj]) == self.block_buffer[obj].maxlen:
                 if self.buffer_overflow_treatment[obj] == 'error':
                     self._buffer_overflow = True
                 elif self.buffer_overflow_treatment[obj] == 'warning':
@@ -538,13 +545,15 @@ class SampleSplitter(InOut):
         self._source_generator = LockedGenerator(self.source.result(num))
         self._source_generator_exist = True  # indicates full generator
 
-    def _fill_block_buffers(self):
-        next_block = next(self._source_generator)
+    def _fill_block_buffers(self, inspect_objs):
+        # the source may reuse the memory of the block
+        next_block = np.array(next(self._source_generator))
+        self._inspect_buffer_levels(inspect_objs)
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
-        for obj in self.block_buffer:
+        for obj in list(self.block_buffer):
             self._remove_block_buffer(obj)
             self._create_block_buffer(obj)
 
@@ -657,19 +666,22 @@ class SampleSplitter(InOut):
         self._assert_obj_registered(calling_obj)
         objs_to_inspect = self._get_objs_to_inspect()
 
-        if not self._source_generator_exist:
-            self._create_source_generator(num)
+        with self._fill_lock:
+            if not self._source_generator_exist:
+                self._create_source_generator(num)
 
         while not self._buffer_overflow:
             if self.block_buffer[calling_obj]:
                 yield self.block_buffer[calling_obj].pop()
             else:
-                self._inspect_buffer_levels(objs_to_inspect)
-                try:
-                    self._fill_block_buffers()
-                except StopIteration:
-                    self._source_generator_exist = False
-                    return
+                with self._fill_lock:
+                    if self.block_buffer[calling_obj]:
+                        continue  # filled by another object in the meantime
+                    try:
+                        self._fill_block_buffers(objs_to_inspect)
+                    except StopIteration:
+                        self._source_generator_exist = False
+                        return
         else:
             msg = 'Maximum size of block buffer is reached!'
             raise OSError(msg)
-- 
2.43.0


From 7a3a57e74d358d6fbb8c8d6621b4665fd033231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 03/46] fix: RFFT counts overlapping snapshots and yields none
 without data, triangular cross-power spectra

---
 acoular/fprocess.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 8f9e7d9..f2b91bf 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size'])
+    num_samples = Property(depends_on=['source.num_samples', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -93,7 +93,8 @@ class RFFT(BaseSpectra, SpectraOut):
     @cached_property
     def _get_num_samples(self):
         if self.source.num_samples >= 0:
-            return int(np.floor(self.source.num_samples / self.block_size))
+            shift = self.block_size / self.overlap_
+            return max(0, int(np.floor((self.source.num_samples - self.block_size) / shift)) + 1)
         return -1
 
     def _get_block_size(self):
@@ -157,7 +158,7 @@ class RFFT(BaseSpectra, SpectraOut):
             svalue = 1 / wind.sum()
         wind = wind[:, np.newaxis]
         fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
-        j = 0
+        j = num - 1
         for i, data in enumerate(self._get_source_data()):  # yields one block of time data
             j = i % num
             fftdata[j] = self._scale(
@@ -391,7 +392,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels'])
+    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
@@ -434,6 +435,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
         nf = self.num_freqs
         scale = self._get_scaling_value()
 
+        upper, lower = np.triu_indices(nc_src), np.tril_indices(nc_src)
         csm_flat = np.zeros((num, nc * nf), dtype=self.precision)
         csm_upper = np.zeros((nf, nc_src, nc_src), dtype=self.precision)
         for data in self.source.result(num):
@@ -444,10 +446,10 @@ class CrossPowerSpectra(AutoPowerSpectra):
                     [np.fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
                     csm_flat[i] = (csm_lower + csm_upper).reshape(-1)
                 elif self.calc_mode == 'upper':
-                    csm_flat[i] = csm_upper[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_upper[:, upper[0], upper[1]].reshape(-1)
                 else:  # lower
                     csm_lower = csm_upper.conj().transpose(0, 2, 1)
-                    csm_flat[i] = csm_lower[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_lower[:, lower[0], lower[1]].reshape(-1)
                 csm_upper[...] = 0  # calcCSM adds cumulative
             yield csm_flat[: i + 1] * scale
 
-- 
2.43.0


From b3672c1590419e0de597e77b681d6c500802fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 04/46] fix: mixers and TimeReverse keep source data,
 FilterBank handles a short last block, TimeConvolve handles long, shared and
 exact-fit kernels

---
 acoular/sources.py  |  2 +-
 acoular/tprocess.py | 64 +++++++++++++++++++++++++++------------------
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0d3bd5c..fabccf6 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2316,7 +2316,7 @@ class SourceMixer(SamplesGenerator):
             weights = array([1.0 for j in range(len(self.sources))])
         assert weights.shape[0] == len(self.sources)
         for temp in self.sources[0].result(num):
-            temp *= weights[0]
+            temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
                 temp1 = next(g) * weights[j + 1]
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 014f751..5c00c1c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1338,7 +1338,7 @@ class Mixer(TimeOut):
                     return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
@@ -1426,7 +1426,8 @@ class TimeReverse(TimeOut):
 
         """
         result_list = []
-        result_list.extend(self.source.result(num))
+        # the source may reuse the memory of the blocks
+        result_list.extend(block.copy() for block in self.source.result(num))
         temp = empty_like(result_list[0])
         h = result_list.pop()
         nsh = h.shape[0]
@@ -1718,8 +1719,9 @@ class FilterBank(TimeOut):
         res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
             for i in range(numbands):
-                res[:, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
-            yield res
+                bres, zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
+                res[: block.shape[0], i * snumch : (i + 1) * snumch] = bres
+            yield res[: block.shape[0]]
 
 
 class OctaveFilterBank(FilterBank):
@@ -1971,17 +1973,24 @@ class TimeConvolve(TimeOut):
         desc='Frequency domain Kernel blocks',
     )
 
+    # Number of samples of the full convolution
+    num_samples = Property(depends_on=['source.num_samples', 'kernel'])
+
     # internal identifier
     digest = Property(depends_on=['source.digest', 'kernel'])
 
+    @cached_property
+    def _get_num_samples(self):
+        if self.source.num_samples < 0 or not self.kernel.size:
+            return self.source.num_samples
+        return self.source.num_samples + self.kernel.shape[0] - 1
+
     @cached_property
     def _get_digest(self):
         return digest(self)
 
     def _validate_kernel(self):
-        # reshape kernel for broadcasting
         if self.kernel.ndim == 1:
-            self.kernel = self.kernel.reshape([-1, 1])
             return
         # check dimensionality
         if self.kernel.ndim > 2:
@@ -1995,18 +2004,20 @@ class TimeConvolve(TimeOut):
     # compute the rfft of the kernel blockwise
     @cached_property
     def _get__kernel_blocks(self):
-        [L, N] = self.kernel.shape
+        # reshape kernel for broadcasting
+        kernel = self.kernel.reshape([-1, 1]) if self.kernel.ndim == 1 else self.kernel
+        [L, N] = kernel.shape
         num = self._block_size
         P = int(ceil(L / num))
         trim = num * (P - 1)
         blocks = zeros([P, num + 1, N], dtype='complex128')
 
         if P > 1:
-            for i, block in enumerate(split(self.kernel[:trim], P - 1, axis=0)):
+            for i, block in enumerate(split(kernel[:trim], P - 1, axis=0)):
                 blocks[i] = rfft(concatenate([block, zeros([num, N])], axis=0), axis=0)
 
         blocks[-1] = rfft(
-            concatenate([self.kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
+            concatenate([kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
             axis=0,
         )
         return blocks
@@ -2036,9 +2047,9 @@ class TimeConvolve(TimeOut):
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
         Q = int(ceil(M / num))  # number of signal blocks
         R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num  # size of final block
+        last_size = (L + M - 1) % num or num  # size of final block
 
-        idx = 0
+        kernel_blocks = self._kernel_blocks
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
         buff = zeros([2 * num, N])  # time-domain input buffer
         spec_sum = zeros([num + 1, N], dtype='complex128')
@@ -2049,16 +2060,16 @@ class TimeConvolve(TimeOut):
 
         # for very short signals, we are already done
         if R == 1:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
             yield irfft(spec_sum, axis=0)[num : last_size + num]
             return
 
         # stream processing of source signal
         for temp in signal_blocks:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             yield irfft(spec_sum, axis=0)[num:]
             buff = concatenate(
                 [buff[num:], zeros([num, N])],
@@ -2067,34 +2078,37 @@ class TimeConvolve(TimeOut):
             buff[num : num + temp.shape[0]] = temp  # append new time-data
 
         for _ in range(R - Q):
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             yield irfft(spec_sum, axis=0)[num:]
             buff = concatenate(
                 [buff[num:], zeros([num, N])],
                 axis=0,
             )  # shift input buffer to the left
 
-        _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-        spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+        _append_to_fdl(fdl, rfft(buff, axis=0))
+        spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
         # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
         yield irfft(spec_sum, axis=0)[num : last_size + num]
 
 
 @nb.jit(nopython=True, cache=True)
-def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
-    fdl[idx] = buff
-    idx = int(idx + 1 % numblocks_kernel)
+def _append_to_fdl(fdl, buff):  # pragma: no cover
+    # fdl[i] holds the spectrum of the i-th last input block
+    for i in range(fdl.shape[0] - 1, 0, -1):
+        fdl[i] = fdl[i - 1]
+    fdl[0] = buff
 
 
 @nb.jit(nopython=True, cache=True)
 def _spectral_sum(out, fdl, kb):  # pragma: no cover
-    P, B, N = kb.shape
-    for n in range(N):
+    P, B, K = kb.shape
+    for n in range(out.shape[1]):
+        k = n if K > 1 else 0  # a single kernel applies to all channels
         for b in range(B):
             out[b, n] = 0
             for i in range(P):
-                out[b, n] += fdl[i, b, n] * kb[i, b, n]
+                out[b, n] += fdl[i, b, n] * kb[i, b, k]
 
     return out
 
-- 
2.43.0


From 7f15459992eeb9e70266449edf897f76570cb03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 05/46] fix: sources read only existing signal samples, yield
 no empty blocks and leave the shared signal unchanged

---
 acoular/sources.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index fabccf6..466c7a6 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -102,12 +102,12 @@ def _fill_mic_signal_block(out, signal, rm, ind, blocksize, num_channels, up, pr
                 if ind[0, m] < 0:
                     out[b, m] = 0
                 else:
-                    out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                    out[b, m] = signal[int(0.5 + ind[0, m]) % signal.size] / rm[0, m]
             ind += up
     else:
         for b in range(blocksize):
             for m in range(num_channels):
-                out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                out[b, m] = signal[int(0.5 + ind[0, m]) % signal.size] / rm[0, m]
             ind += up
     return out
 
@@ -914,7 +914,7 @@ class PointSource(SamplesGenerator):
 
         if self.prepadding == 'zeros':
             # number of blocks where signal behaviour is amended
-            pre = -int(npmin(ind[0]) // (self.up * num))
+            pre = max(0, -int(npmin(ind[0]) // (self.up * num)))
             # amend signal for first blocks
             # if signal stops during prepadding, terminate
             if pre >= N:
@@ -1191,7 +1191,7 @@ class MovingPointSource(PointSource):
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
             # emission time relative to start time
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
             try:
@@ -1346,8 +1346,8 @@ class PointSourceDipole(PointSource):
                     i = 0
             except IndexError:
                 break
-
-        yield out[:i]
+        if i > 0:
+            yield out[:i]
 
 
 class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
@@ -1553,7 +1553,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             rm1 = self.env._r(loc + diff, mpos)
             rm2 = self.env._r(loc - diff, mpos)
 
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
                 rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
@@ -1574,7 +1574,8 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:
+            yield out[:i]
 
 
 class LineSource(PointSource):
@@ -1681,11 +1682,12 @@ class LineSource(PointSource):
         for s in range(self.num_sources):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
+            signal = self.signal
             # new seed for every source
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                signal = signal.clone_traits()
+                signal.seed = s + int(self.digest[1:8], 16)
+            signals[s] = signal.usignal(self.up) * self.source_strength[s]
         i = 0
         n = self.num_samples
         while n:
@@ -1703,8 +1705,8 @@ class LineSource(PointSource):
                     i = 0
             except IndexError:
                 break
-
-        yield out[:i]
+        if i > 0:
+            yield out[:i]
 
 
 class MovingLineSource(LineSource, MovingPointSource):
@@ -1901,11 +1903,12 @@ class MovingLineSource(LineSource, MovingPointSource):
         signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
         # coherence
         for s in range(self.num_sources):
+            signal = self.signal
             # new seed for every source
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                signal = signal.clone_traits()
+                signal.seed = s + int(self.digest[1:8], 16)
+            signals[s] = signal.usignal(self.up) * self.source_strength[s]
         mpos = self.mics.pos
 
         # shortcuts and initial values
@@ -1926,7 +1929,7 @@ class MovingLineSource(LineSource, MovingPointSource):
                 loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
-                inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
+                inds[:, s] = (te - self.start_t) * self.sample_freq
 
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
@@ -1944,7 +1947,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:
+            yield out[:i]
 
 
 @deprecated_alias({'numchannels': 'num_channels'}, read_only=True)
-- 
2.43.0


From 298758c833946061cc4f54f7e372d7a6a152c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 06/46] fix: time domain beamformers weight each sample once
 and end with the data or the trajectory

---
 acoular/tbeamform.py  | 34 +++++++++++++++++++++++++++-------
 acoular/trajectory.py |  2 +-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 34daa16..3470959 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -34,6 +34,7 @@ from numpy import (
     interp,
     isscalar,
     newaxis,
+    ones,
     r_,
     s_,
     sqrt,
@@ -73,10 +74,12 @@ def const_power_weight(bf):
     array of floats
         The weight factors.
     """
-    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos)  # distances to center
+    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos).ravel()  # distances to center
     # round the relative distances to one decimal place
     r = (r / r.max()).round(decimals=1)
     ru, ind = unique(r, return_inverse=True)
+    if ru.size == 1:  # all microphones have the same distance
+        return ones(r.shape)
     ru = (ru[1:] + ru[:-1]) / 2
     count, bins = histogram(r, r_[0, ru, 1.5 * r.max() - 0.5 * ru[-1]])
     bins *= bins
@@ -171,9 +174,11 @@ class BeamformerTime(TimeOut):
             dtype=fdtype,
         )
         for p_res in buffer.result(num):
-            p_res *= weights
+            p_res = p_res * weights
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
+                if num <= 0:  # no sample with all delays available remains
+                    break
                 n_index = arange(0, num + 1)[:, newaxis]
             # init step
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
@@ -406,13 +411,24 @@ class BeamformerTimeTraj(BeamformerTime):
         buffered_result = buffer.result(num)
         while flag:
             for i in range(num):
-                tpos = next(movgpos).astype(fdtype)
+                tpos = next(movgpos, None)
+                if tpos is None:  # end of trajectory
+                    num = i
+                    flag = False
+                    break
+                tpos = tpos.astype(fdtype)
                 rm = self.steer.env._r(tpos, mpos)  # .astype(fdtype)
                 blockr0[i, :] = self.get_r0(tpos)
                 blockrm[i, :, :] = rm
                 if self.conv_amp:
                     ht = next(movgspeed)
                     blockrmconv[i, :, :] = rm * (1 - self._get_macostheta(ht, tpos, rm)) ** 2
+            if num == 0:
+                break
+            if not flag:  # last block is shorter, because the trajectory ends here
+                blockrm, blockrmconv, blockr0 = blockrm[:num], blockrmconv[:num], blockr0[:num]
+                amp, d_index, d_interp2 = amp[:num], d_index[:num], d_interp2[:num]
+                n_index = n_index[:num]
             if self.conv_amp:
                 steer_func(blockrmconv, blockr0, amp)
             else:
@@ -423,13 +439,17 @@ class BeamformerTimeTraj(BeamformerTime):
 
             try:
                 time_block = next(buffered_result)
-                time_block *= weights
+                time_block = time_block * weights
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
-                num = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
-                n_index = arange(num, dtype=idtype)[:, newaxis]
-                flag = False
+                valid = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
+                if valid == 0:
+                    break
+                if valid < num:
+                    num = valid
+                    n_index = arange(num, dtype=idtype)[:, newaxis]
+                    flag = False
             # init step
             p_res = time_block.copy()
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
diff --git a/acoular/trajectory.py b/acoular/trajectory.py
index fca6b6f..594249d 100644
--- a/acoular/trajectory.py
+++ b/acoular/trajectory.py
@@ -190,7 +190,7 @@ class Trajectory(HasStrictTraits):
         if not delta_t:
             delta_t = t_start
             t_start, t_end = self.interval
-        if not t_end:
+        if t_end is None:
             t_end = self.interval[1]
         # all locations are fetched in one go because that is much faster further improvement could
         # be possible if interpolated locations are fetched in blocks
-- 
2.43.0


From 897e02b80413b14b07c0c7b30551211ac423ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 07/46] fix: OctaveFilterBank renews its filter coefficients
 when bands, fraction or source change

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 5c00c1c..c61c2f4 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1737,7 +1737,7 @@ class OctaveFilterBank(FilterBank):
     fraction = Map({'Octave': 1, 'Third octave': 3}, default_value='Octave', desc='fraction of octave')
 
     # List of filter coefficients for all filters
-    ba = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
+    sos = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
 
     # List of labels for bands
     bands = Property(depends_on=['lband', 'hband', 'fraction'])
-- 
2.43.0


From fe636de5ac299313d799456559fe888296f01d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 08/46] fix: Average declares the whole number of averages it
 delivers and keeps an unknown length

---
 acoular/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 6adf3d8..c6bd2ac 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -147,7 +147,9 @@ class Average(InOut):
     @cached_property
     def _get_num_samples(self):
         if self.source:
-            return self.source.num_samples / self.num_per_average
+            if self.source.num_samples < 0:  # unknown number of samples
+                return -1
+            return self.source.num_samples // self.num_per_average
         return None
 
     def result(self, num):
-- 
2.43.0


From b79b738bc4c56709ad75d831721bc28551dd44ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 09/46] fix: digests of sources, interpolators, calibration and
 DAMAS+ include all settings and data they depend on

---
 acoular/calib.py     |  2 +-
 acoular/fbeamform.py |  2 +-
 acoular/sources.py   | 41 +++++++++++++++++++++++++++++++++++++----
 acoular/tprocess.py  | 11 ++++++++++-
 4 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index 06a57e1..6ac37ba 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -98,7 +98,7 @@ class Calib(InOut):
     channels = Property(depends_on=['invalid_channels', 'num_mics'], desc='channel mask')
 
     # Internal identifier
-    digest = Property(depends_on=['source.digest', 'data'])
+    digest = Property(depends_on=['source.digest', 'data', 'invalid_channels'])
 
     @on_trait_change('data')
     def set_num_mics(self):
diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4baf27..acd53ce 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1273,7 +1273,7 @@ class BeamformerDamasPlus(BeamformerDamas):
 
     # internal identifier
     digest = Property(
-        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult'],
+        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult', 'psf_precision'],
     )
 
     @cached_property
diff --git a/acoular/sources.py b/acoular/sources.py
index 466c7a6..cc22b94 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -27,6 +27,7 @@ Measured multichannel data management and simulation of acoustic sources.
 # imports from other packages
 
 import contextlib
+from hashlib import md5
 from os import path
 from warnings import warn
 
@@ -36,6 +37,7 @@ from numpy import (
     arange,
     arctan2,
     array,
+    ascontiguousarray,
     ceil,
     complex128,
     cross,
@@ -43,6 +45,7 @@ from numpy import (
     empty,
     int64,
     mod,
+    ndarray,
     newaxis,
     ones,
     pi,
@@ -397,14 +400,17 @@ class TimeSamples(SamplesGenerator):
     metadata = Dict(desc='metadata contained in .h5 file')
 
     # Checksum over first data entries of all channels
-    _datachecksum = Property()
+    _datachecksum = Property(depends_on=['data'])
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
         depends_on=['basename', 'calib.digest', '_datachecksum', 'sample_freq', 'num_channels', 'num_samples']
     )
 
+    @cached_property
     def _get__datachecksum(self):
+        if isinstance(self.data, ndarray):
+            return md5(ascontiguousarray(self.data)).hexdigest()
         return self.data[0, :].sum()
 
     @cached_property
@@ -415,7 +421,7 @@ class TimeSamples(SamplesGenerator):
     def _get_basename(self):
         return get_file_basename(self.file)
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def _load_data(self):
         # Open the .h5 file and set attributes.
         if self.h5f is not None:
@@ -609,7 +615,17 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum'])
+    digest = Property(
+        depends_on=[
+            'basename',
+            'start',
+            'stop',
+            'calib.digest',
+            'invalid_channels',
+            '_datachecksum',
+            'sample_freq',
+        ],
+    )
 
     @cached_property
     def _get_digest(self):
@@ -633,7 +649,7 @@ class MaskedTimeSamples(TimeSamples):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
         return sli[1] - sli[0]
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def _load_data(self):
         # Open the .h5 file and set attributes.
         if not path.isfile(self.file):
@@ -983,6 +999,7 @@ class SphericalHarmonicSource(PointSource):
             'up',
             'alpha',
             'lOrder',
+            'direction',
             'prepadding',
         ],
     )
@@ -1117,6 +1134,7 @@ class MovingPointSource(PointSource):
             'env.digest',
             'start_t',
             'start',
+            'up',
             'trajectory.digest',
             'prepadding',
         ],
@@ -1383,6 +1401,10 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             'start',
             'up',
             'direction',
+            'conv_amp',
+            'trajectory.digest',
+            'rvec',
+            'prepadding',
         ],
     )
 
@@ -1629,8 +1651,11 @@ class LineSource(PointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
             'source_strength',
             'coherence',
+            'prepadding',
         ],
     )
 
@@ -1744,6 +1769,14 @@ class MovingLineSource(LineSource, MovingPointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
+            'source_strength',
+            'coherence',
+            'conv_amp',
+            'trajectory.digest',
+            'rvec',
+            'prepadding',
         ],
     )
 
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index c61c2f4..031dd9f 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -525,6 +525,9 @@ class AngleTracker(MaskedTimeOut):
             'rot_direction',
             'interp_points',
             'start_angle',
+            'start',
+            'stop',
+            'invalid_channels',
         ],
     )
 
@@ -732,7 +735,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
     _virtNewCoord_func = Property(  # noqa: N815
-        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero'],
+        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'Q', 'interp_at_zero'],
     )
 
     # internal identifier
@@ -745,6 +748,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1175,6 +1180,8 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1230,6 +1237,8 @@ class SpatialInterpolatorConstantRotation(SpatialInterpolator):  # pragma: no co
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
             'rotational_speed',
         ],
     )
-- 
2.43.0


From 46133aaa1c28c3407e638e4d0881915e2faa6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 10/46] fix: imported cross-spectral matrices have digests of
 their current content and frequencies

---
 acoular/aiaa/aiaa.py | 12 ++++++++++--
 acoular/spectra.py   | 11 ++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index bdb1182..33bcc16 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -26,8 +26,9 @@ Examples
 """  # noqa: W505
 
 import contextlib
+from hashlib import md5
 
-from numpy import array
+from numpy import array, ascontiguousarray
 from traits.api import (
     File,
     Instance,
@@ -114,7 +115,7 @@ class CsmAIAABenchmark(PowerSpectraImport):
     def _get_basename(self):
         return get_file_basename(self.file)
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def load_data(self):
         """Open the .h5 file and set attributes."""
         if self.h5f is not None:
@@ -122,6 +123,13 @@ class CsmAIAABenchmark(PowerSpectraImport):
                 self.h5f.close()
         file = _get_h5file_class()
         self.h5f = file(self.file)
+        # renew the checksum to distinguish files that have the same name
+        csmsum = md5()
+        for name in ('csmReal', 'csmImaginary', 'binCenterFrequenciesHz'):
+            csmsum.update(ascontiguousarray(self.h5f.get_data_by_reference(f'/CsmData/{name}')[:]))
+        sign = self.h5f.get_node_attribute(self.h5f.get_data_by_reference('/CsmData'), 'fftSign')
+        csmsum.update(str(sign).encode())
+        self._csmsum = csmsum.hexdigest()
 
     # @property_depends_on( 'block_size, ind_low, ind_high' )
     def _get_indices(self):
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 94676ff..50c7fd1 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -12,11 +12,13 @@
 """
 
 from abc import abstractmethod
+from hashlib import md5
 from warnings import warn
 
 from numpy import (
     arange,
     array,
+    ascontiguousarray,
     bartlett,
     blackman,
     dot,
@@ -24,12 +26,10 @@ from numpy import (
     fill_diagonal,
     hamming,
     hanning,
-    imag,
     linalg,
     ndarray,
     newaxis,
     ones,
-    real,
     searchsorted,
     sum,  # noqa A004
     zeros,
@@ -46,6 +46,7 @@ from traits.api import (
     Int,
     Map,
     Property,
+    Str,
     Union,
     cached_property,
     property_depends_on,
@@ -664,7 +665,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum'])
+    digest = Property(depends_on=['_csmsum', 'frequencies'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
@@ -673,7 +674,7 @@ class PowerSpectraImport(PowerSpectra):
     _csm = CArray()
 
     # Checksum for the CSM to trigger digest calculation, for internal use only.
-    _csmsum = Float()
+    _csmsum = Str()
 
     def _get_basename(self):
         return 'csm_import_' + self.digest
@@ -693,8 +694,8 @@ class PowerSpectraImport(PowerSpectra):
             msg = 'The cross spectral matrix must have the following shape: \
             (number of frequencies, num_channels, num_channels)!'
             raise ValueError(msg)
-        self._csmsum = real(self._csm).sum() + (imag(self._csm) ** 2).sum()  # to trigger new digest creation
         self._csm = csm
+        self._csmsum = md5(ascontiguousarray(self._csm)).hexdigest()  # to trigger new digest creation
 
     @property_depends_on(['digest'])
     def _get_eva(self):
-- 
2.43.0


From 4ed23596e89d98bea590ea54f1dd6134a977c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 11/46] fix: GeneralFlowEnvironment renews its interpolators
 when settings or region change

---
 acoular/environments.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index f179e06..b78f8e1 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -65,6 +65,7 @@ from traits.api import (
     Property,
     Union,
     cached_property,
+    on_trait_change,
 )
 
 from .internal import digest
@@ -819,7 +820,7 @@ class GeneralFlowEnvironment(Environment):
 
     #: A unique identifier based on the environment properties. (read-only)
     digest = Property(
-        depends_on=['c', 'ff.digest', 'N', 'Om'],
+        depends_on=['c', 'ff.digest', 'N', 'Om', 'roi'],
     )
 
     #: A dictionary for storing precomputed interpolators to optimize repeated calculations.
@@ -830,22 +831,26 @@ class GeneralFlowEnvironment(Environment):
     def _get_digest(self):
         return digest(self)
 
+    @on_trait_change('digest')
+    def _clear_idict(self):
+        # stored interpolators belong to the former settings
+        self.idict = {}
+
     def _r(self, gpos, mpos=0.0):
         c = self.c
 
         if isscalar(mpos):
             mpos = array((0, 0, 0), dtype=float32)[:, newaxis]
 
+        roi = gpos if self.roi is None else self.roi
         gt = empty((gpos.shape[-1], mpos.shape[-1]))
         for micnum, x0 in enumerate(mpos.T):
-            key = x0.tobytes()  # make array hashable
+            # make arrays hashable, the interpolator covers a certain region only
+            key = (x0.tobytes(), roi.tobytes())
             try:
                 li = self.idict[key]  # fetch stored interpolator
             except KeyError:
                 # if interpolator doesn't exist, construct it
-                roi = gpos
-                if self.roi is not None:
-                    roi = self.roi
                 li = self.get_interpolator(roi, x0)
                 self.idict[key] = li
             # do the interpolation
-- 
2.43.0


From d8dba4fcf9374d587451ebb77969d30d9f0f8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 12/46] fix: moving time domain beamformers keep single
 precision with weighted microphones

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 3470959..711cf1b 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -439,7 +439,7 @@ class BeamformerTimeTraj(BeamformerTime):
 
             try:
                 time_block = next(buffered_result)
-                time_block = time_block * weights
+                time_block = (time_block * weights).astype(fdtype)
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
-- 
2.43.0


From 51ca4446c00c30c7f497728d95d36fc5459ed5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:39 +0000
Subject: [PATCH 13/46] fix: interpolated arrays, merged grids, inverse
 beamformers and file signals renew identity and coordinates with their
 settings

---
 acoular/fbeamform.py |  2 +-
 acoular/grids.py     |  2 +-
 acoular/signals.py   |  2 +-
 acoular/tprocess.py  | 14 ++++++--------
 4 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index acd53ce..7bd3e12 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -221,7 +221,7 @@ class SteeringVector(HasStrictTraits):
 
     @cached_property
     def _get_inv_digest(self):
-        return digest(self)
+        return digest(self, 'inv_digest')
 
     def transfer(self, f, ind=None):
         """Calculates the transfer matrix for one frequency.
diff --git a/acoular/grids.py b/acoular/grids.py
index 78ae40b..ee40b35 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1050,7 +1050,7 @@ class MergeGrid(Grid):
     subgrids = Property(desc='names of subgrids for each point')
 
     #: A unique identifier for the grid, based on its properties. (read-only)
-    digest = Property(depends_on=['grids', 'grid_digest'])
+    digest = Property(depends_on=['grid_digest'])
 
     @cached_property
     def _get_digest(self):
diff --git a/acoular/signals.py b/acoular/signals.py
index 9c04ec9..cc05832 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -603,7 +603,7 @@ class GenericSignalGenerator(SignalGenerator):
     #: The number of samples to generate. Default is the number of samples available in the
     #: :attr:`source` (``source.num_samples``). If set explicitly, it can exceed the source length,
     #: in which case the signal will loop if :attr:`loop_signal` is ``True``.
-    num_samples = Property()
+    num_samples = Property(depends_on=['_num_samples', 'source.num_samples'])
 
     def _get_num_samples(self):
         if self._num_samples:
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 031dd9f..2ac3be7 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -676,14 +676,12 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     mics = Instance(MicGeom(), desc='microphone geometry')
 
     # :class:`~acoular.microphones.MicGeom` object that provides the virtual microphone locations.
-    mics_virtual = Property(desc='microphone geometry')
+    mics_virtual = Property(depends_on=['mics', '_mics_virtual'], desc='microphone geometry')
 
     _mics_virtual = Instance(MicGeom, desc='internal microphone geometry;internal usage, read only')
 
     def _get_mics_virtual(self):
-        if not self._mics_virtual and self.mics:
-            self._mics_virtual = self.mics
-        return self._mics_virtual
+        return self._mics_virtual if self._mics_virtual else self.mics
 
     def _set_mics_virtual(self, mics_virtual):
         self._mics_virtual = mics_virtual
@@ -734,7 +732,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     )
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
-    _virtNewCoord_func = Property(  # noqa: N815
+    _virtNewCoord = Property(  # noqa: N815
         depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'Q', 'interp_at_zero'],
     )
 
@@ -761,7 +759,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         return digest(self)
 
     @cached_property
-    def _get_virtNewCoord(self):  # noqa N802
+    def _get__virtNewCoord(self):  # noqa N802
         return self._virtNewCoord_func(self.mics.mpos, self.mics_virtual.mpos, self.method, self.array_dimension)
 
     def sinc_mic(self, r):
@@ -832,7 +830,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             newCoord = (cartToCyl(mpos, self.Q).T)[indReorderHelp].T
 
             # and for virtual mics
-            virtNewCoord = cartToCyl(mpos_virt)
+            virtNewCoord = cartToCyl(mpos_virt, self.Q)
 
         elif self.array_dimension == '2D':  # 2d case0
             # get virtual mic projections on new coord system
@@ -940,7 +938,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         # number of virtual mixcs
         nVirtMics = self.mics_virtual.mpos.shape[1]
         # mesh and projection onto polar Coordinates
-        meshList, virtNewCoord, newCoord = self._get_virtNewCoord()
+        meshList, virtNewCoord, newCoord = self._virtNewCoord
         # pressure interpolation init
         pInterp = zeros((nTime, nVirtMics))
         # Coordinates in cartesian CO - for IDW interpolation
-- 
2.43.0


From 2efe0b2d3044ea14bb59930324dfa829e098a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 14/46] fix: cache file manager blocked after errors and object
 file changes, was not thread safe and kept read-only handles

---
 acoular/h5cache.py | 56 +++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index c073543..ba6c6bc 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -5,6 +5,7 @@
 # imports from other packages
 import gc
 from pathlib import Path
+from threading import RLock
 from weakref import WeakValueDictionary
 
 from traits.api import Bool, Delegate, Dict, HasStrictTraits, Instance
@@ -26,23 +27,24 @@ class HDF5Cache(HasStrictTraits):
 
     open_file_reference = Dict(key_trait=Path, value_trait=int)
 
-    def _idle_if_busy(self):
-        while self.busy:
-            pass
+    _lock = RLock()
 
     def close_cachefile(self, cachefile):
-        self.open_file_reference.pop(Path(cachefile.filename))
+        filename = Path(cachefile.filename).resolve()
+        self.open_file_reference.pop(filename, None)
+        self.open_files.pop(filename, None)
         cachefile.close()
 
+    @staticmethod
+    def _is_open(cachefile):
+        return bool(getattr(cachefile, 'isopen', cachefile))  # tables.File has isopen, h5py.File a truth value
+
     def get_open_cachefiles(self):
-        try:
-            return self.open_files.itervalues()
-        except AttributeError:
-            return iter(self.open_files.values())
+        return iter(list(self.open_files.values()))
 
     def close_unreferenced_cachefiles(self):
         for cachefile in self.get_open_cachefiles():
-            if not self.is_reference_existent(cachefile):
+            if self._is_open(cachefile) and not self.is_reference_existent(cachefile):
                 self.close_cachefile(cachefile)
 
     def is_reference_existent(self, file):
@@ -62,7 +64,8 @@ class HDF5Cache(HasStrictTraits):
         self.open_file_reference[filename] = self.open_file_reference.get(filename, 0) + 1
 
     def _decrease_file_reference_counter(self, filename):
-        self.open_file_reference[filename] = self.open_file_reference[filename] - 1
+        if filename in self.open_file_reference:
+            self.open_file_reference[filename] = self.open_file_reference[filename] - 1
 
     def get_cache_directories(self):
         """Return a list of all used cache directories (if multiple paths exist)."""
@@ -81,35 +84,48 @@ class HDF5Cache(HasStrictTraits):
 
     def get_cache_file(self, obj, basename, mode='a'):
         """Returns pytables .h5 file to h5f trait of calling object for caching."""
-        self._idle_if_busy()  #
-        self.busy = True
+        with self._lock:
+            self.busy = True
+            try:
+                self._assign_cache_file(obj, basename, mode)
+            finally:
+                self.busy = False
+
+    def _assign_cache_file(self, obj, basename, mode):
         file_cls = _get_cachefile_class()
         filename = (Path(self.cache_dir) / (basename + '_cache.h5')).resolve()
 
         if config.global_caching == 'readonly' and not filename.exists():
             obj.h5f = None
-            self.busy = False
             return  # cachefile is not created in readonly mode
 
-        if isinstance(obj.h5f, file_cls):
-            if Path(obj.h5f.filename).resolve() == filename:
-                self.busy = False
+        file = self.open_files.get(filename)
+        if file is not None and not self._is_open(file):
+            file = None
+        if file is not None and file.mode == 'r' and config.global_caching != 'readonly':
+            # the file has been opened in readonly mode before and cannot be written
+            self.close_cachefile(file)
+            file = None
+
+        if obj.h5f is not None:
+            if obj.h5f is file:
                 return
-            self._decrease_file_reference_counter(obj.h5f.filename)
+            for name, open_file in list(self.open_files.items()):
+                if open_file is obj.h5f:
+                    self._decrease_file_reference_counter(name)
 
-        if filename not in self.open_files:  # or tables.file._open_files.filenames
+        if file is None:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
                 mode = 'r'
             file = file_cls(filename, mode)
             self.open_files[filename] = file
 
-        obj.h5f = self.open_files[filename]
+        obj.h5f = file
         self._increase_file_reference_counter(filename)
 
         # garbage collection
         self.close_unreferenced_cachefiles()
 
-        self.busy = False
         self._print_open_files()
 
 
-- 
2.43.0


From 627c5b5d8bb885cb11aa53a9e51f005907841c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 15/46] fix: caching of empty and integer streams, of zero
 matrices in readonly mode and of nodes in h5py groups

---
 acoular/h5files.py | 9 ++++++---
 acoular/process.py | 6 ++++--
 acoular/spectra.py | 3 +++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/acoular/h5files.py b/acoular/h5files.py
index a91e65f..57190e4 100644
--- a/acoular/h5files.py
+++ b/acoular/h5files.py
@@ -51,9 +51,14 @@ if config.have_tables:
         'float64': tables.Float64Atom(),
         'complex128': tables.ComplexAtom(16),
         'bool': tables.BoolAtom(),
+        'int64': tables.Int64Atom(),
         'int32': tables.Int32Atom(),
         'int16': tables.Int16Atom(),
         'int8': tables.Int8Atom(),
+        'uint64': tables.UInt64Atom(),
+        'uint32': tables.UInt32Atom(),
+        'uint16': tables.UInt16Atom(),
+        'uint8': tables.UInt8Atom(),
     }
 
     class H5FileTables(H5FileBase, tables.File):
@@ -186,9 +191,7 @@ if config.have_h5py:
         #        compression_filter = 'blosc' # unavailable...
 
         def is_cached(self, nodename, group=None):
-            if not group:
-                group = '/'
-            return group + nodename in self
+            return self._get_in_file_path(nodename, group) in self
 
         def create_compressible_array(self, nodename, shape, precision, group=None):
             in_file_path = self._get_in_file_path(nodename, group)
diff --git a/acoular/process.py b/acoular/process.py
index c6bd2ac..73ed426 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -278,7 +278,8 @@ class Cache(InOut):
             self.h5f.append_data(ac, data)
             self.h5f.flush()
             yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if self.h5f.is_cached(nodename):
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     def _get_data_from_cache(self, num):
         nodename = 'tc_' + self.digest
@@ -308,7 +309,8 @@ class Cache(InOut):
             if j >= nblocks:
                 self.h5f.flush()
                 yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if self.h5f.is_cached(nodename):
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     # result generator: delivers input, possibly from cache
     def result(self, num):
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 50c7fd1..783a51b 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -526,6 +526,9 @@ class PowerSpectra(BaseSpectra):
             self.h5f.create_compressible_array(nodename, shape, precision)
 
         ac = self.h5f.get_data_by_reference(nodename)
+        if config.global_caching == 'readonly':
+            data = ac[:]
+            return func() if data.sum() == 0 else data
         if ac[:].sum() == 0:  # only initialized
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
-- 
2.43.0


From ad6e14418b3dd905bbb28b3149c4386160064902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 16/46] fix: point spread function columns missing, misfiled or
 unreadable, cached maps wrong after interruption, result[-1] not calculated

---
 acoular/fbeamform.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 7bd3e12..f5c989e 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -58,7 +58,6 @@ from numpy import (
     index_exp,
     inf,
     integer,
-    invert,
     isscalar,
     log10,
     ndarray,
@@ -293,7 +292,7 @@ class LazyBfResult:
         # 'intelligent' [] operator checks if results are available and triggers calculation
         sl = index_exp[key][0]
         if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1)
+            sl = slice(sl, sl + 1 or None)
         # indices which are missing
         missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
         # calc if needed
@@ -434,6 +433,9 @@ class BeamformerBase(HasStrictTraits):
         if ac and fr:  # cached data is available
             if config.global_caching == 'readonly':
                 (ac, fr) = (ac[:], fr[:])  # so never write back to disk
+                if gpos:
+                    self._gpos = gpos[:]
+                self.h5f = None
         else:
             # no caching or not activated, init numpy arrays
             if isinstance(self, BeamformerAdaptiveGrid):
@@ -1019,7 +1021,7 @@ class PointSpreadFunction(HasStrictTraits):
         exist and global caching mode is 'readonly'.
         """
         filename = 'psf' + self.digest
-        nodename = (f'Hz_{self.freq:.2f}').replace('.', '_')
+        nodename = f'Hz_{self.freq!r}'.replace('.', '_').replace('-', 'm').replace('+', 'p')
         #        print("get cachefile:", filename)
         H5cache.get_cache_file(self, filename)
         if not self.h5f:  # only happens in case of global caching readonly
@@ -1071,10 +1073,11 @@ class PointSpreadFunction(HasStrictTraits):
                         return ac[:, self.grid_indices]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, self.grid_indices]
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, self.grid_indices]
+                # indices for reading from file have to be unique and in increasing order
+                ind, inverse = unique(self.grid_indices, return_inverse=True)
+                return ac[:, ind][:, inverse]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
@@ -1089,9 +1092,8 @@ class PointSpreadFunction(HasStrictTraits):
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
         if self.calcmode != 'full':
-            # calc_ind has the form [True, True, False, True], except
-            # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else invert(gp[:][self.grid_indices])
+            # calc_ind has the form [True, True, False, True]
+            calc_ind = gp[:][self.grid_indices] == 0
 
             # get indices which have the value True = not yet calculated
             g_ind_calc = self.grid_indices[calc_ind]
@@ -1101,14 +1103,13 @@ class PointSpreadFunction(HasStrictTraits):
                 ac[:, ind] = self._psf_call([ind])[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
-            gp[:] = 1
             ac[:] = self._psf_call(arange(self.steer.grid.size))
+            gp[:] = 1
         else:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-                gp[ind] = 1
                 ac[:, ind] = hh[:, indh]
-                indh += 1
+                gp[ind] = 1
 
     def _psf_call(self, ind):
         """Manages the calling of the core psf functionality.
@@ -1442,6 +1443,7 @@ class BeamformerOrth(BeamformerBase):
         for i in ind:
             eva = array(self.freq_data.eva[i], dtype='float64')
             eve = array(self.freq_data.eve[i], dtype='complex128')
+            result = zeros(self.steer.grid.size, dtype=self.precision)
             for n in self.eva_list:
                 beamformerOutput = beamformerFreq(
                     param_steer_type,
@@ -1450,7 +1452,8 @@ class BeamformerOrth(BeamformerBase):
                     steer_vector(f[i]),
                     (ones(1), eve[:, n].reshape((-1, 1))),
                 )[0]
-                self._ac[i, beamformerOutput.argmax()] += eva[n] / num_channels
+                result[beamformerOutput.argmax()] += eva[n] / num_channels
+            self._ac[i] = result
             self._fr[i] = 1
 
 
-- 
2.43.0


From fb3d8265b1e7d93e5dbd5343de70e686b91aa338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 17/46] fix: cache files in use by readers are never closed for
 writers

---
 acoular/h5cache.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index ba6c6bc..5816ab9 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -6,6 +6,7 @@
 import gc
 from pathlib import Path
 from threading import RLock
+from warnings import warn
 from weakref import WeakValueDictionary
 
 from traits.api import Bool, Delegate, Dict, HasStrictTraits, Instance
@@ -103,7 +104,13 @@ class HDF5Cache(HasStrictTraits):
         if file is not None and not self._is_open(file):
             file = None
         if file is not None and file.mode == 'r' and config.global_caching != 'readonly':
-            # the file has been opened in readonly mode before and cannot be written
+            # the file has been opened in readonly mode before and has to be reopened for writing
+            if obj.h5f is file:
+                obj.h5f = None
+            if self.is_reference_existent(file):
+                warn(f'Cache file {filename.name} is in use in readonly mode and will not be used.', stacklevel=4)
+                obj.h5f = None
+                return
             self.close_cachefile(file)
             file = None
 
-- 
2.43.0


From 85257ed209f666e332d771b85e92844c2544c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:02 +0000
Subject: [PATCH 18/46] fix: cross spectral matrix ignored single precision,
 overwriting cached matrices closed nodes in use

---
 acoular/spectra.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 783a51b..0f4e7bb 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -399,7 +399,8 @@ class PowerSpectra(BaseSpectra):
         [fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
         csm = csm_lower + csm_upper
         # onesided spectrum: multiplication by 2.0=sqrt(2)^2
-        return csm * (2.0 / self.block_size / weight / self.num_blocks)
+        # the factor is no numpy scalar, which would determine the precision of the result
+        return csm * float(2.0 / self.block_size / weight / self.num_blocks)
 
     def calc_ev(self):
         """
@@ -515,10 +516,6 @@ class PowerSpectra(BaseSpectra):
             return func()
 
         nodename = traitname + '_' + self.digest
-        if config.global_caching == 'overwrite' and self.h5f.is_cached(nodename):
-            # print("remove existing node",nodename)
-            self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
-
         if not self.h5f.is_cached(nodename):
             if config.global_caching == 'readonly':
                 return func()
@@ -529,7 +526,8 @@ class PowerSpectra(BaseSpectra):
         if config.global_caching == 'readonly':
             data = ac[:]
             return func() if data.sum() == 0 else data
-        if ac[:].sum() == 0:  # only initialized
+        # only initialized, or renewed in place as other objects may use the node
+        if config.global_caching == 'overwrite' or ac[:].sum() == 0:
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
             self.h5f.flush()
-- 
2.43.0


From e5ecb99305f733712c9bebd2cb36aca8dfaead06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:02 +0000
Subject: [PATCH 19/46] fix: functional beamformer NaN for rank-deficient
 matrices, gridless orthogonal beamformer storage and region of interest,
 overwriting cached maps closed nodes in use

---
 acoular/fbeamform.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index f5c989e..652a7bd 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -371,10 +371,6 @@ class BeamformerBase(HasStrictTraits):
 
         nodename = self.__class__.__name__ + self.digest
         #        print("collect filecache for nodename:",nodename)
-        if config.global_caching == 'overwrite' and self.h5f.is_cached(nodename):
-            #            print("remove existing data for nodename",nodename)
-            self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
-
         if not self.h5f.is_cached(nodename):
             #            print("no data existent for nodename:", nodename)
             if config.global_caching == 'readonly':
@@ -402,6 +398,8 @@ class BeamformerBase(HasStrictTraits):
 
         ac = self.h5f.get_data_by_reference('result', '/' + nodename)
         fr = self.h5f.get_data_by_reference('freqs', '/' + nodename)
+        if config.global_caching == 'overwrite':
+            fr[:] = 0  # renew data in place, as other objects may use the node
         if isinstance(self, BeamformerAdaptiveGrid):
             gpos = self.h5f.get_data_by_reference('gpos', '/' + nodename)
         else:
@@ -774,7 +772,8 @@ class BeamformerFunctional(BeamformerBase):
                 indNegSign = sign(beamformerOutput) < 0
                 beamformerOutput[indNegSign] = 0.0
             else:
-                eva = array(self.freq_data.eva[i], dtype='float64') ** (1.0 / self.gamma)
+                # eigenvalues of the positive semi-definite matrix are negative only due to rounding
+                eva = clip(array(self.freq_data.eva[i], dtype='float64'), 0.0, None) ** (1.0 / self.gamma)
                 eve = array(self.freq_data.eve[i], dtype='complex128')
                 beamformerOutput, steerNorm = beamformerFreq(
                     param_steer_type,
@@ -1028,10 +1027,6 @@ class PointSpreadFunction(HasStrictTraits):
             #            print("no cachefile:", filename)
             return (None, None)  # only happens in case of global caching readonly
 
-        if config.global_caching == 'overwrite' and self.h5f.is_cached(nodename):
-            #            print("remove existing data for nodename",nodename)
-            self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
-
         if not self.h5f.is_cached(nodename):
             #            print("no data existent for nodename:", nodename)
             if config.global_caching == 'readonly':
@@ -1047,6 +1042,8 @@ class PointSpreadFunction(HasStrictTraits):
             )
         ac = self.h5f.get_data_by_reference('result', '/' + nodename)
         gp = self.h5f.get_data_by_reference('gridpts', '/' + nodename)
+        if config.global_caching == 'overwrite':
+            gp[:] = 0  # renew data in place, as other objects may use the node
         return (ac, gp)
 
     def _get_psf(self):
@@ -2389,9 +2386,9 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
         """Sets the list of eigenvalues to consider."""
         self.eva_list = arange(-1, -1 - self.n, -1)
 
-    @property_depends_on('n')
+    @property_depends_on(['eva_list', 'freq_data.digest'])
     def _get_size(self):
-        return self.n * self.freq_data.fftfreq().shape[0]
+        return self.eva_list.shape[0] * self.freq_data.fftfreq().shape[0]
 
     def _calc(self, ind):
         """Calculates the result for the frequencies defined by :attr:`freq_data`.
@@ -2421,7 +2418,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
             msg = 'custom steer_type is not implemented'
             raise NotImplementedError(msg)
         mpos = self.steer.mics.pos
-        env = self.steer.env
+        env = self.steer.env.clone_traits()  # with an own region of interest
         shgo_opts = {
             'n': 256,
             'iters': 1,
@@ -2434,7 +2431,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
             for y in self.bounds[1]:
                 for z in self.bounds[2]:
                     roi.append((x, y, z))
-        self.steer.env.roi = array(roi).T
+        env.roi = array(roi).T
         bmin = array(tuple(map(min, self.bounds)))
         bmax = array(tuple(map(max, self.bounds)))
         for i in ind:
@@ -2460,7 +2457,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
                 # simplical global homotopy optimizer
                 oR = shgo(func, self.bounds, **shgo_opts)
                 # index in grid
-                i1 = i * self.n + j
+                i1 = i * self.eva_list.shape[0] + j
                 # store result for position
                 self._gpos[:, i1] = oR['x']
                 # store result for level
-- 
2.43.0


From 9390f7faa35d648739b1832218230a7d3c21eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 20/46] fix: power spectral density was multiplied with instead
 of divided by the sampling frequency

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index f2b91bf..7763922 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -315,7 +315,7 @@ class AutoPowerSpectra(SpectraOut):
         if self.single_sided:
             scale *= 2
         if self.scaling == 'psd':
-            scale *= self.block_size * self.source.sample_freq
+            scale *= self.block_size / self.source.sample_freq
         return scale
 
     def result(self, num=1):
-- 
2.43.0


From 998be0270459219d66395903b5b0e9885e46c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:37 +0000
Subject: [PATCH 21/46] fix: filter banks allow bands with different numbers of
 filter sections

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 2ac3be7..43022bd 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1722,7 +1722,7 @@ class FilterBank(TimeOut):
         numbands = self.num_bands
         snumch = self.source.num_channels
         sos = self.sos
-        zi = [zeros((sos[0].shape[0], 2, snumch)) for _ in range(numbands)]
+        zi = [zeros((sos[i].shape[0], 2, snumch)) for i in range(numbands)]
         res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
             for i in range(numbands):
-- 
2.43.0


From 75f44ca80269cd40d610a6f3e58543434cb0740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:20 +0000
Subject: [PATCH 22/46] fix: sample buffer handles source blocks as long as or
 longer than the buffer

---
 acoular/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 73ed426..3499837 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -848,7 +848,7 @@ class SamplesBuffer(InOut):
 
     def _write_to_buffer(self, data):
         ns = data.shape[0]
-        self._buffer[0 : (self.length - ns)] = self._buffer[-(self.length - ns) :]
+        self._buffer[0 : (self.length - ns)] = self._buffer[ns : self.length]
         self._buffer[-ns:, :] = data.astype(self.dtype)
         self._index -= ns
 
@@ -935,6 +935,8 @@ class SamplesBuffer(InOut):
         - Once the buffer is filled, it yields control and resumes only when the buffer is ready for
           more data.
         """
+        if snum > self.length:  # the buffer has to hold at least one block of the source
+            self.increase_buffer(snum - self.length)
         source_generator = self.source.result(snum)
         while not self._empty_source:
             while self._index >= snum:
-- 
2.43.0


From 6b55f8a202d67b553639cb68ebc4da3701b97056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:20 +0000
Subject: [PATCH 23/46] fix: HDF5 writers close their file when the consumer
 stops early or the source fails

---
 acoular/tprocess.py | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 43022bd..51c657a 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1901,9 +1901,11 @@ class WriteH5(TimeOut):
         """Saves source output to `*.h5` file."""
         f5h = self.get_initialized_file()
         ac = f5h.get_data_by_reference('time_data')
-        for data in self.source.result(4096):
-            f5h.append_data(ac, data)
-        f5h.close()
+        try:
+            for data in self.source.result(4096):
+                f5h.append_data(ac, data)
+        finally:
+            f5h.close()
 
     def add_metadata(self, f5h):
         """Adds metadata to .h5 file."""
@@ -1940,23 +1942,25 @@ class WriteH5(TimeOut):
         scount = 0
         stotal = self.num_samples_write
         source_gen = self.source.result(num)
-        while self.write_flag:
-            sleft = stotal - scount
-            if stotal != -1 and sleft > 0:
-                anz = min(num, sleft)
-            elif stotal == -1:
-                anz = num
-            else:
-                break
-            try:
-                data = next(source_gen)
-            except StopIteration:
-                break
-            f5h.append_data(ac, data[:anz])
-            f5h.flush()
-            yield data
-            scount += anz
-        f5h.close()
+        try:
+            while self.write_flag:
+                sleft = stotal - scount
+                if stotal != -1 and sleft > 0:
+                    anz = min(num, sleft)
+                elif stotal == -1:
+                    anz = num
+                else:
+                    break
+                try:
+                    data = next(source_gen)
+                except StopIteration:
+                    break
+                f5h.append_data(ac, data[:anz])
+                f5h.flush()
+                yield data
+                scount += anz
+        finally:  # also if the consumer stops early or the source fails
+            f5h.close()
 
 
 class TimeConvolve(TimeOut):
-- 
2.43.0


From 0e19a930ea4bb391237004de8bf250cebe4d9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:40 +0000
Subject: [PATCH 24/46] fix: rotation angle for several triggers per
 revolution, any start and changing speed; rotation interpolator, sinc method
 and rectangular triggers

---
 acoular/tprocess.py | 56 ++++++++++++---------------------------------
 1 file changed, 15 insertions(+), 41 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 51c657a..b9e533d 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -46,7 +46,6 @@ from numpy import (
     argsort,
     array,
     array_equal,
-    asarray,
     ceil,
     concatenate,
     cumsum,
@@ -66,11 +65,11 @@ from numpy import (
     newaxis,
     pi,
     polymul,
+    searchsorted,
     sin,
     sinc,
     split,
     sqrt,
-    stack,
     sum,  # noqa: A004
     tile,
     unique,
@@ -449,7 +448,7 @@ class Trigger(TimeOut):  # pragma: no cover
         if faultyInd.size != 0:
             warn(
                 f'In Trigger-Identification: The distances between the peaks (and therefore the lengths of the \
-                revolutions) vary too much (check samples {peakLoc[faultyInd] + self.source.start}).',
+                revolutions) vary too much (check samples {peakLoc[faultyInd] + getattr(self.source, 'start', 0)}).',
                 Warning,
                 stacklevel=2,
             )
@@ -460,8 +459,8 @@ class Trigger(TimeOut):  # pragma: no cover
         return self._trigger_value_comp(x, threshold)
 
     def _trigger_rect(self, x0, x, threshold):
-        # x0 stores the last value of the the last generator cycle
-        xNew = append(x0, x)
+        # x0 stores the last value of the the last generator cycle (there is none for the first cycle)
+        xNew = append(x0 if len(x0) else x[0], x)
         # indPeakHunk = abs(xNew[1:] - xNew[:-1]) > abs(threshold)
         # with above line, every edge would be located
         return self._trigger_value_comp(xNew[1:] - xNew[:-1], threshold)
@@ -569,11 +568,6 @@ class AngleTracker(MaskedTimeOut):
     def _get_digest(self):
         return digest(self)
 
-    # helperfunction for trigger index detection
-    def _find_nearest_idx(self, peakarray, value):
-        peakarray = asarray(peakarray)
-        return (abs(peakarray - value)).argmin()
-
     def _to_rpm_and_angle(self):
         """Internal helper function
         Calculates angles in radians for one or more instants in time.
@@ -581,8 +575,6 @@ class AngleTracker(MaskedTimeOut):
         Current version supports only trigger and sources with the same samplefreq.
         This behaviour may change in future releases
         """
-        # init
-        ind = 0
         # trigger data
         peakloc, maxdist, mindist = self.trigger.trigger_data
         TriggerPerRevo = self.trigger_per_revo
@@ -595,35 +587,17 @@ class AngleTracker(MaskedTimeOut):
         InterpPoints = self.interp_points
 
         # loop over all timesamples
-        while ind < num:
-            # when starting spline forward
-            if ind < peakloc[InterpPoints]:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) + 1]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist : ind // peakdist + InterpPoints]),
-                    axis=0,
-                )
-            # spline backwards
-            else:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) - 1]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist - InterpPoints : ind // peakdist]),
-                    axis=0,
-                )
+        for ind in range(num):
+            # spline through the peaks next to the sample, counted from the first peak
+            start = searchsorted(peakloc, ind, side='right') - InterpPoints // 2
+            start = max(min(start, len(peakloc) - InterpPoints), 0)
+            peaks = peakloc[start : start + InterpPoints]
+            Spline = splrep(peaks, arange(start, start + len(peaks)), k=3)
             # calc angles and rpm
-            Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
-            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
+            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate / TriggerPerRevo
             self._angle[ind] = (
                 splev(ind, Spline, der=0, ext=0) * 2 * pi * rotDirection / TriggerPerRevo + self.start_angle
             ) % (2 * pi)
-            # next sample
-            ind += 1
         # calculation complete
         self._calc_flag = True
 
@@ -999,7 +973,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, :],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1046,7 +1020,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, : len(newCoord[0])],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1120,7 +1094,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, : len(newCoord[0])],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1205,7 +1179,7 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
         # period for rotation
         period = 2 * pi
         # get angle
-        angle = self.angle_source.angle()
+        angle = self.angle_source.angle
         # counter to track angle position in time for each block
         count = 0
         for timeData in self.source.result(num):
-- 
2.43.0


From 101f9dfdbf7f574cc98ebb37a2dd3d0018e0c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 25/46] fix: uncorrelated noise source uses all settings of its
 noise signal

---
 acoular/sources.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index cc22b94..ad3b536 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2120,7 +2120,6 @@ class UncorrelatedNoiseSource(SamplesGenerator):
         - Each channel's noise signal is generated using a unique random seed.
         - The type and characteristics of the noise are defined by the :attr:`signal` attribute.
         """
-        Noise = self.signal.__class__
         # create or get the array of random seeds
         if not self.seed.size > 0:
             seed = arange(self.num_channels) + self.signal.seed
@@ -2130,12 +2129,12 @@ class UncorrelatedNoiseSource(SamplesGenerator):
             msg = f'Seed array expected to be of shape ({self.num_channels:d},), but has shape {self.seed.shape}.'
             raise ValueError(msg)
         # create array with [num_channels] noise signal tracks
-        signal = array(
-            [
-                Noise(seed=s, num_samples=self.num_samples, sample_freq=self.sample_freq, rms=self.signal.rms).signal()
-                for s in seed
-            ],
-        ).T
+        noise = self.signal.clone_traits()
+        tracks = []
+        for s in seed:
+            noise.seed = int(s)
+            tracks.append(noise.signal())
+        signal = array(tracks).T
 
         n = num
         while n <= self.num_samples:
-- 
2.43.0


From 8d0a1c7e1a9d7f5f6c108cb3d599a79c94572ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:06 +0000
Subject: [PATCH 26/46] fix: source mixer ends with its shortest input

---
 acoular/sources.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index ad3b536..4986e44 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2355,7 +2355,10 @@ class SourceMixer(SamplesGenerator):
             temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
-                temp1 = next(g) * weights[j + 1]
+                try:
+                    temp1 = next(g) * weights[j + 1]
+                except StopIteration:
+                    return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
                 temp += temp1[: temp.shape[0]]
-- 
2.43.0


From 9eb7c9e05d73cc266555bfe78fbfc18acff1ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:06 +0000
Subject: [PATCH 27/46] fix: distance zero of identical points in uniform flow

---
 acoular/environments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index b78f8e1..47972b3 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -48,6 +48,7 @@ from numpy import (
     sqrt,
     sum,  # noqa: A004
     vstack,
+    where,
     zeros_like,
 )
 from scipy.integrate import ode
@@ -308,7 +309,9 @@ class UniformFlowEnvironment(Environment):
         mpos = mpos[:, newaxis, :]
         rmv = gpos[:, :, newaxis] - mpos
         rm = sqrt(sum(rmv * rmv, 0))
-        macostheta = (self.ma * sum(rmv.reshape((3, -1)) * fdv[:, newaxis], 0) / rm.reshape(-1)).reshape(rm.shape)
+        # identical points have no direction, any angle gives the distance zero
+        rm0 = where(rm > 0, rm, 1)
+        macostheta = (self.ma * sum(rmv.reshape((3, -1)) * fdv[:, newaxis], 0)).reshape(rm.shape) / rm0
         rm *= 1 / (-macostheta + sqrt(macostheta * macostheta - self.ma * self.ma + 1))
         if rm.shape[1] == 1:
             rm = rm[:, 0]
-- 
2.43.0


From 9b68676b7225cc465a2b69543c1df0f853195c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:12 +0000
Subject: [PATCH 28/46] fix: steering vectors for reference distance zero,
 single microphones and index lists; eigenvalue selection follows the
 microphones

---
 acoular/fbeamform.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 652a7bd..9d09d84 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -43,7 +43,7 @@ from numpy import (
     arange,
     argsort,
     array,
-    atleast_2d,
+    atleast_1d,
     clip,
     delete,
     diag,
@@ -60,7 +60,6 @@ from numpy import (
     integer,
     isscalar,
     log10,
-    ndarray,
     newaxis,
     ones,
     pi,
@@ -207,12 +206,12 @@ class SteeringVector(HasStrictTraits):
         if isscalar(self.ref):
             if self.ref > 0:
                 return full((self.grid.size,), self.ref)
-            return self.env._r(self.grid.pos())
+            return self.env._r(self.grid.pos)
         return self.env._r(self.grid.pos, self.ref[:, newaxis])
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
     def _get_rm(self):
-        return atleast_2d(self.env._r(self.grid.pos, self.mics.pos))
+        return self.env._r(self.grid.pos, self.mics.pos).reshape(self.grid.size, -1)
 
     @cached_property
     def _get_digest(self):
@@ -246,9 +245,8 @@ class SteeringVector(HasStrictTraits):
 
         if ind is None:
             trans = calcTransfer(self.r0, self.rm, array(2 * pi * f / self.env.c))
-        elif not isinstance(ind, ndarray):
-            trans = calcTransfer(self.r0[ind], self.rm[ind, :][newaxis], array(2 * pi * f / self.env.c))  # [0, :]
         else:
+            ind = atleast_1d(ind)
             trans = calcTransfer(self.r0[ind], self.rm[ind, :], array(2 * pi * f / self.env.c))
         return trans
 
@@ -856,7 +854,7 @@ class BeamformerEig(BeamformerBase):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['steer.mics', 'n'])
+    @property_depends_on(['steer.mics.digest', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
-- 
2.43.0


From dcb91ada5e58d64ffb189e7d7e18c15a85364821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 29/46] fix: CLEAN-SC adding negative powers or NaN when no
 power is left, SODIX leaving out the first line, GIB failing for silent lines
 and many iterations, gridless positions outside the bounds

---
 acoular/fbeamform.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 9d09d84..c32641e 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1515,6 +1515,8 @@ class BeamformerCleansc(BeamformerBase):
             for j in range(J):
                 xi_max = h.argmax()  # index of maximum
                 powers[j] = hmax = h[xi_max]  # maximum
+                if hmax <= 0:  # no power left
+                    break
                 result[xi_max] += self.damp * hmax
                 if j > self.stopn and hmax > powers[j - self.stopn]:
                     break
@@ -1971,8 +1973,9 @@ class BeamformerSODIX(BeamformerBase):
         # determine the initial guess for the next frequency in order to speed up
         # computation. Instead of just solving for only the frequencies in ind, we
         # start with index 1 (minimum frequency) and also check if the result is
-        # already computed
-        for i in range(1, ind.max() + 1):
+        # already computed. Index 0 is computed if requested, but is never used as
+        # initial guess.
+        for i in range(0 if 0 in ind else 1, ind.max() + 1):
             if not self._fr[i]:
                 # measured csm
                 csm = array(self.freq_data.csm[i], dtype='complex128', copy=1)
@@ -2013,13 +2016,11 @@ class BeamformerSODIX(BeamformerBase):
                         return func, derdrl.ravel()
 
                     ##### initial guess ####
-                    if not self._fr[(i - 1)]:
-                        D0 = ones([num_points, num_mics])
-                    else:
-                        D0 = sqrt(
-                            self._ac[(i - 1)]
-                            * real(trace(csm) / trace(array(self.freq_data.csm[i - 1], dtype='complex128', copy=1))),
-                        )
+                    D0 = ones([num_points, num_mics])
+                    if i > 1 and self._fr[(i - 1)]:
+                        power = trace(array(self.freq_data.csm[i - 1], dtype='complex128', copy=1))
+                        if real(power) > 0:
+                            D0 = sqrt(self._ac[(i - 1)] * real(trace(csm) / power))
 
                     # boundaries - set to non negative [2*(num_points*num_mics)]
                     boundaries = tile((0, +inf), (num_points * num_mics, 1))
@@ -2184,6 +2185,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
             eva[eva < max(eva) / 1e12] = 0
             # init sources
             qi = zeros([n + m, num_points], dtype='complex128')
+            locpoints = arange(num_points)
             # Select the number of coherent modes to be processed referring to the eigenvalue
             # distribution.
             for s in list(range(m, n + m)):
@@ -2218,7 +2220,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                                 # Reorder from the greatest to smallest magnitude to define a
                                 # reduced-point source distribution, and reform a reduced transfer
                                 # matrix
-                                leftpoints = int(round(num_points * self.beta ** (it + 1)))
+                                leftpoints = max(1, int(round(num_points * self.beta ** (it + 1))))
                                 idx = argsort(abs(qi[s, locpoints]))[::-1]
                                 # print(it, leftpoints, locpoints, idx )
                                 locpoints = delete(locpoints, [idx[leftpoints::]])
@@ -2457,7 +2459,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
                 # index in grid
                 i1 = i * self.eva_list.shape[0] + j
                 # store result for position
-                self._gpos[:, i1] = oR['x']
+                self._gpos[:, i1] = clip(oR['x'], bmin, bmax)
                 # store result for level
                 self._ac[i, i1] = eva[n] / num_channels
                 # print(oR['x'],eva[n]/num_channels,oR)
-- 
2.43.0


From 91ef51179166547cd26cc61338de6a156d2561d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 30/46] fix: sector integration before any other access or
 after changed spectra gave empty or wrong spectra, gridless integration
 failed

---
 acoular/fbeamform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index c32641e..161e42a 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -658,6 +658,7 @@ class BeamformerBase(HasStrictTraits):
                 msg,
             )
         gshape = self.steer.grid.shape
+        result = self.result  # makes the frequencies available
         if num == 0 or frange is None:
             if frange is None:
                 ind_low = self.freq_data.ind_low
@@ -681,7 +682,7 @@ class BeamformerBase(HasStrictTraits):
                 )
             h = zeros(self._numfreq, dtype=float)
             sl = slice(*irange)
-            r = self.result[sl]
+            r = result[sl]
             for i in range(*irange):
                 # we do this per frequency because r might not have fancy indexing
                 h[i] = r[i - sl.start].reshape(gshape)[ind].sum()
@@ -689,6 +690,7 @@ class BeamformerBase(HasStrictTraits):
                 return h
             return self._f[sl], h[sl]
 
+        frange = atleast_1d(frange)
         h = zeros(len(frange), dtype=float)
         for i, f in enumerate(frange):
             h[i] = self.synthetic(f, num).reshape(gshape)[ind].sum()
@@ -2328,8 +2330,8 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
                 msg,
             )
 
+        r = self.result[:]  # the positions are known after the calculation
         ind = self.subdomain(sector)
-        r = self.result
         h = zeros(r.shape[0])
         for i in range(r.shape[0]):
             h[i] = r[i][ind].sum()
-- 
2.43.0


From f64a88894a9554b64dd51860783a00017b7655a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 31/46] fix: moving time-domain beamformers ignored a reference
 position and failed for a single microphone

---
 acoular/tbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 711cf1b..285ab01 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -356,6 +356,8 @@ class BeamformerTimeTraj(BeamformerTime):
     def get_r0(self, tpos):
         if isscalar(self.steer.ref) and self.steer.ref > 0:
             return self.steer.ref  # full((self.steer.grid.size,), self.steer.ref)
+        if not isscalar(self.steer.ref):
+            return self.steer.env._r(tpos, self.steer.ref[:, newaxis])
         return self.steer.env._r(tpos)
 
     def result(self, num=2048):
@@ -417,7 +419,7 @@ class BeamformerTimeTraj(BeamformerTime):
                     flag = False
                     break
                 tpos = tpos.astype(fdtype)
-                rm = self.steer.env._r(tpos, mpos)  # .astype(fdtype)
+                rm = self.steer.env._r(tpos, mpos).reshape(self.steer.grid.size, num_mics)
                 blockr0[i, :] = self.get_r0(tpos)
                 blockrm[i, :, :] = rm
                 if self.conv_amp:
-- 
2.43.0


From ef2b3790457bf4408b86a3b64146b73b6c6524f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:43 +0000
Subject: [PATCH 32/46] fix: moving time-domain beamformers read beyond the
 data when later samples of the last block need less data

---
 acoular/tbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 285ab01..d8738a9 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -445,7 +445,9 @@ class BeamformerTimeTraj(BeamformerTime):
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
-                valid = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
+                # only leading samples for which the data for all channels and grid points is available
+                inside = (d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0]
+                valid = num if inside.all() else int(inside.argmin())
                 if valid == 0:
                     break
                 if valid < num:
-- 
2.43.0


From bed97a11ed18928bd4a3fd453d9aa72233773f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 33/46] fix: jets gave undefined velocity derivatives in the
 nozzle exit plane, ray tracing from there failed

---
 acoular/environments.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index 47972b3..5bb82e3 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -436,6 +436,11 @@ class SlotJet(FlowField):
             Ux = self.v0
             Udx = 0
             Udy = 0
+        elif x1 * x1 == 0:
+            # slot exit plane outside of the slot
+            Ux = 0.0
+            Udx = 0
+            Udy = 0
         else:
             # shear layer
             Ux = self.v0 * exp(-h1 * h1 / (2 * x1 * x1))
@@ -537,20 +542,24 @@ class OpenJet(FlowField):
         r = sqrt(y * y + z * z)
         x1 = 0.5022 / self.l * x  # C2 in Albertson1950
         h1 = r + x1 - 0.5 * self.D
-        U = self.v0 * exp(-h1 * h1 / (2 * x1 * x1))
         if h1 < 0.0:
-            Udr = 0.0
+            # core jet
             U = self.v0
+            Udr = 0.0
+            Udx = 0.0
+        elif x1 * x1 == 0:
+            # nozzle exit plane outside of the nozzle
+            U = Udr = Udx = 0.0
         else:
+            # shear layer
+            U = self.v0 * exp(-h1 * h1 / (2 * x1 * x1))
             Udr = -h1 * U / (x1 * x1)
+            Udx = (h1 * h1 / (x * x1 * x1) - h1 / (x * x1)) * U
         if r > 0.0:
             Udy = y * Udr / r
             Udz = z * Udr / r
         else:
             Udy = Udz = 0.0
-        Udx = (h1 * h1 / (x * x1 * x1) - h1 / (x * x1)) * U
-        if h1 < 0.0:
-            Udx = 0
 
         # flow field
         v = array((U, 0.0, 0.0))
-- 
2.43.0


From 4ba93fda4393b5c1918080661f31a3ecb0ed62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 34/46] fix: rectangular grids ignored changes of z and index()
 used the nominal instead of the actual spacing

---
 acoular/grids.py | 65 ++++++++++++++++--------------------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index ee40b35..8e5688a 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -32,7 +32,6 @@ from abc import abstractmethod
 from numpy import (
     absolute,
     append,
-    arange,
     argmin,
     array,
     asarray,
@@ -142,6 +141,18 @@ def _det(xvert, yvert):
     return sum(yvert * x_prev - xvert * y_prev, axis=0)
 
 
+def _axis_index(value, low, high, num, name):
+    # index of the nearest of num equally spaced points from low to high
+    step = (high - low) / (num - 1) if num > 1 else 0.0
+    tol = 1e-9 * step  # the outermost points themselves may exceed the limits by rounding errors
+    if value < low - tol or value > high + tol:
+        msg = f'{name}-value out of range {value:f} ({low:f}, {high:f})'
+        raise ValueError(msg)
+    if step == 0:
+        return 0
+    return min(max(int((value - low) / step + 0.5), 0), num - 1)
+
+
 class Polygon:
     """
     Create an object representing a general polygon in a 2D plane.
@@ -440,7 +451,7 @@ class RectGrid(Grid):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['x_min', 'x_max', 'y_min', 'y_max', 'increment'])
+    @property_depends_on(['x_min', 'x_max', 'y_min', 'y_max', 'z', 'increment'])
     def _get_pos(self):
         bpos = mgrid[
             self.x_min : self.x_max : self.nxsteps * 1j,
@@ -471,14 +482,8 @@ class RectGrid(Grid):
         ValueError
             If the coordinates are outside the grid boundaries.
         """
-        if x < self.x_min or x > self.x_max:
-            msg = 'x-value out of range'
-            raise ValueError(msg)
-        if y < self.y_min or y > self.y_max:
-            msg = 'y-value out of range'
-            raise ValueError(msg)
-        xi = int((x - self.x_min) / self.increment + 0.5)
-        yi = int((y - self.y_min) / self.increment + 0.5)
+        xi = _axis_index(x, self.x_min, self.x_max, self.nxsteps, 'x')
+        yi = _axis_index(y, self.y_min, self.y_max, self.nysteps, 'y')
         return xi, yi
 
     def indices(self, *r):
@@ -503,25 +508,17 @@ class RectGrid(Grid):
         """
         if len(r) == 3:  # only 3 values given -> use x,y,radius method
             xpos = self.pos
-            xis = []
-            yis = []
             dr2 = (xpos[0, :] - r[0]) ** 2 + (xpos[1, :] - r[1]) ** 2
             # array with true/false entries
             inds = dr2 <= r[2] ** 2
-            for np in arange(self.size)[inds]:  # np -- points in x2-circle
-                xi, yi = self.index(xpos[0, np], xpos[1, np])
-                xis += [xi]
-                yis += [yi]
-            if not (xis and yis):  # if no points in circle, take nearest one
+            if not inds.any():  # if no points in circle, take nearest one
                 return self.index(r[0], r[1])
-            return array(xis), array(yis)
+            return where(inds.reshape(self.shape))
         if len(r) == 4:  # rectangular subdomain - old functionality
             xi1, yi1 = self.index(min(r[0], r[2]), min(r[1], r[3]))
             xi2, yi2 = self.index(max(r[0], r[2]), max(r[1], r[3]))
             return s_[xi1 : xi2 + 1], s_[yi1 : yi2 + 1]
         xpos = self.pos
-        xis = []
-        yis = []
         # replaced matplotlib Path by numpy
         # p = Path(array(r).reshape(-1,2))
         # inds = p.contains_points()
@@ -529,15 +526,10 @@ class RectGrid(Grid):
         poly = Polygon(array(r).reshape(-1, 2)[:, 0], array(r).reshape(-1, 2)[:, 1])
         dists = poly.is_inside(xpos[0, :], xpos[1, :])
         inds = dists >= 0
-        for np in arange(self.size)[inds]:  # np -- points in x2-circle
-            xi, yi = self.index(xpos[0, np], xpos[1, np])
-            xis += [xi]
-            yis += [yi]
-        if not (xis and yis):  # if no points inside, take nearest to center
+        if not inds.any():  # if no points inside, take nearest to center
             center = array(r).reshape(-1, 2).mean(0)
             return self.index(center[0], center[1])
-        return array(xis), array(yis)
-        # return arange(self.size)[inds]
+        return where(inds.reshape(self.shape))
 
     def extend(self):
         """
@@ -695,22 +687,9 @@ class RectGrid3D(RectGrid):
         >>> grid.index(0.5, 0.5, 1.0)
         (1, 1, 1)
         """
-        if x < self.x_min or x > self.x_max:
-            msg = f'x-value out of range {x:f} ({self.x_min:f}, {self.x_max:f})'
-            raise ValueError(msg)
-        if y < self.y_min or y > self.y_max:
-            msg = f'y-value out of range {y:f} ({self.y_min:f}, {self.y_max:f})'
-            raise ValueError(msg)
-        if z < self.z_min or z > self.z_max:
-            msg = f'z-value out of range {z:f} ({self.z_min:f}, {self.z_max:f})'
-            raise ValueError(msg)
-        if isscalar(self.increment):
-            incx = incy = incz = self.increment
-        else:
-            incx, incy, incz = self.increment
-        xi = int(round((x - self.x_min) / incx))
-        yi = int(round((y - self.y_min) / incy))
-        zi = int(round((z - self.z_min) / incz))
+        xi = _axis_index(x, self.x_min, self.x_max, self.nxsteps, 'x')
+        yi = _axis_index(y, self.y_min, self.y_max, self.nysteps, 'y')
+        zi = _axis_index(z, self.z_min, self.z_max, self.nzsteps, 'z')
         return xi, yi, zi
 
     def indices(self, x1, y1, z1, x2, y2, z2):
-- 
2.43.0


From a9929483c89f2fc67458642ca25e1d573612d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 35/46] fix: LineGrid with one point, shape of line and merged
 grids and order of MergeGrid.subgrids

---
 acoular/grids.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 8e5688a..74714e6 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -974,11 +974,11 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
-        dist = self.length / (self.num_points - 1)
+        dist = self.length / (self.num_points - 1) if self.num_points > 1 else 0.0
         loc = array(self.loc, dtype=float).reshape((3, 1))
         direc_n = array(self.direction) / norm(self.direction)
         pos = zeros((self.num_points, 3))
@@ -1045,21 +1045,26 @@ class MergeGrid(Grid):
 
     @property_depends_on(['digest'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['digest'])
     def _get_subgrids(self):
         subgrids = zeros((1, 0), dtype=str)
         for grid in self.grids:
             subgrids = append(subgrids, tile(grid.__class__.__name__ + grid.digest, grid.size))
-        return subgrids[:, newaxis].T
+        # same order as the points, a point of several grids belongs to the first of them
+        _, first = unique(self._all_pos(), axis=1, return_index=True)
+        return subgrids[first][newaxis]
 
-    @property_depends_on(['digest'])
-    def _get_pos(self):
+    def _all_pos(self):
         bpos = zeros((3, 0))
         for grid in self.grids:
             bpos = append(bpos, grid.pos, axis=1)
-        return unique(bpos, axis=1)
+        return bpos
+
+    @property_depends_on(['digest'])
+    def _get_pos(self):
+        return unique(self._all_pos(), axis=1)
 
 
 class Sector(ABCHasStrictTraits):
-- 
2.43.0


From c16fba22187aa12c93432c0b85a0c4a642dbc1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:49 +0000
Subject: [PATCH 36/46] fix: sectors without border and nearest points of
 polygon, convex and cuboid sectors

---
 acoular/grids.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 74714e6..b1d754e 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -55,7 +55,7 @@ from numpy import (
 from scipy.linalg import norm
 
 # from matplotlib.path import Path
-from scipy.spatial import Delaunay
+from scipy.spatial import ConvexHull, Delaunay
 from traits.api import (
     ABCHasStrictTraits,
     Bool,
@@ -130,7 +130,9 @@ def in_hull(p, hull, border=True, tol=0):
 
     if border:
         return hull.find_simplex(p, tol=tol) >= 0
-    return hull.find_simplex(p, tol=tol) > 0
+    # outward unit normals and offsets of the facets
+    facets = ConvexHull(hull.points).equations
+    return (p @ facets[:, :-1].T + facets[:, -1] < -tol).all(axis=-1)
 
 
 def _det(xvert, yvert):
@@ -1318,7 +1320,8 @@ class RectSector3D(RectSector):
         if ~inds.any() and self.default_nearest:
             x = (xmin + xmax) / 2.0
             y = (ymin + ymax) / 2.0
-            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
+            z = (zmin + zmax) / 2.0
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2 + (pos[2, :] - z) ** 2
             inds[argmin(dr2)] = True
 
         return inds.astype(bool)
@@ -1446,11 +1449,12 @@ class PolySector(SingleSector):
         """
         poly = Polygon(array(self.edges).reshape(-1, 2)[:, 0], array(self.edges).reshape(-1, 2)[:, 1])
         dists = poly.is_inside(pos[0, :], pos[1, :])
-        inds = dists >= -self.abs_tol if self.include_border else dists > 0
+        inds = dists >= -self.abs_tol if self.include_border else dists > self.abs_tol
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)
+            x, y = array(self.edges).reshape(-1, 2).mean(0)
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
             inds[argmin(dr2)] = True
 
         return inds
@@ -1508,7 +1512,8 @@ class ConvexSector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            x, y = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
             inds[argmin(dr2)] = True
 
         return inds
-- 
2.43.0


From 7262a7bb913848d5b751f67044516a1613b3703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:20 +0000
Subject: [PATCH 37/46] fix: microphone geometries without valid microphones,
 with all microphones at the origin or exported to file names with special
 characters

---
 acoular/microphones.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/acoular/microphones.py b/acoular/microphones.py
index d51ca00..d89ce5e 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -13,6 +13,7 @@ Implements support for array microphone arrangements.
 # imports from other packages
 import xml.dom.minidom
 from pathlib import Path
+from xml.sax.saxutils import quoteattr
 
 from numpy import array, average
 from scipy.spatial.distance import cdist
@@ -165,7 +166,7 @@ class MicGeom(HasStrictTraits):
         if len(self.invalid_channels) == 0:
             return self.pos_total
         allr = [i for i in range(self.pos_total.shape[-1]) if i not in self.invalid_channels]
-        return self.pos_total[:, array(allr)]
+        return self.pos_total[:, array(allr, dtype=int)]
 
     @cached_property
     def _get_num_mics(self):
@@ -173,7 +174,7 @@ class MicGeom(HasStrictTraits):
 
     @cached_property
     def _get_center(self):
-        if self.pos.any():
+        if self.pos.size:
             center = average(self.pos, axis=1)
             # set very small values to zero
             center[abs(center) < 1e-16] = 0.0
@@ -182,7 +183,7 @@ class MicGeom(HasStrictTraits):
 
     @cached_property
     def _get_aperture(self):
-        if self.pos.any():
+        if self.pos.size:
             return cdist(self.pos.T, self.pos.T).max()
         return None
 
@@ -254,7 +255,7 @@ class MicGeom(HasStrictTraits):
         filepath = Path(filename)
         basename = filepath.stem
         with filepath.open('w', encoding='utf-8') as f:
-            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name="{basename}">\n')
+            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name={quoteattr(basename)}>\n')
             for i in range(self.pos.shape[-1]):
                 f.write(
                     f'  <pos Name="Point {i+1}" x="{self.pos[0, i]}" y="{self.pos[1, i]}" z="{self.pos[2, i]}"/>\n',
-- 
2.43.0


From 8ae8a85ee0caf4c8ff83e561169970297d183614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:20 +0000
Subject: [PATCH 38/46] fix: iterating a trajectory over an empty interval
 raised an error

---
 acoular/trajectory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/trajectory.py b/acoular/trajectory.py
index 594249d..d8ab242 100644
--- a/acoular/trajectory.py
+++ b/acoular/trajectory.py
@@ -194,4 +194,6 @@ class Trajectory(HasStrictTraits):
             t_end = self.interval[1]
         # all locations are fetched in one go because that is much faster further improvement could
         # be possible if interpolated locations are fetched in blocks
-        yield from zip(*self.location(arange(t_start, t_end, delta_t), der))
+        t = arange(t_start, t_end, delta_t)
+        if t.size:
+            yield from zip(*self.location(t, der))
-- 
2.43.0


From ebce043f394ce784b966ba3e2c00d82b1b7d426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 39/46] fix: metric evaluation without multiple assignment
 works on grids of any shape and keeps its data, default sector exists

---
 acoular/tools/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 0484833..86fad39 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -51,7 +51,7 @@ class MetricEvaluator(HasStrictTraits):
     target_grid = Instance(Grid, desc='Grid instance that belongs to the ground-truth data')
 
     #: sector type. Currently only circular sectors are supported.
-    sector = Instance(CircSector, default=CircSector())
+    sector = Instance(CircSector, ())
 
     #: if set True: use shrink integration area if two sources are closer
     #: than 2*r. The radius of the integration area is then set to half the
@@ -117,7 +117,7 @@ class MetricEvaluator(HasStrictTraits):
         sectors = self.sectors
         results = empty(shape=self.target_data.shape)
         for f in range(self.target_data.shape[0]):
-            data = self.data[f]
+            data = self.data[f].reshape(self.grid.shape).copy()
             for i in range(self.target_data.shape[1]):
                 sector = sectors[i]
                 results[f, i] = integrate(data, self.grid, sector)
-- 
2.43.0


From b222a9e98030228303b8a825b4c0eb163a8426fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:14 +0000
Subject: [PATCH 40/46] fix: sound device recordings that are abandoned or fail
 no longer stay marked as running, the sampling frequency and the identity
 follow the device settings

---
 acoular/sdinput.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index 005ff10..c1dd49c 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -67,7 +67,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
     stream = Any
 
     # internal identifier
-    digest = Property(depends_on=['device', 'num_channels', 'num_samples'])
+    digest = Property(depends_on=['device', 'num_channels', 'num_samples', 'precision', '_sample_freq'])
 
     @cached_property
     def _get_digest(self):
@@ -80,7 +80,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
 
     def _get_sample_freq(self):
         if self._sample_freq is None:
-            self._sample_freq = sd.query_devices(self.device)['default_samplerate']
+            return sd.query_devices(self.device)['default_samplerate']
         return self._sample_freq
 
     def _set_sample_freq(self, f):
@@ -120,17 +120,19 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
 
         with stream_obj as stream:
             self.running = True
-            if self.num_samples == -1:
-                while self.collect_samples:  # yield data as long as collect_samples is True
-                    data, self.overflow = stream.read(num)
-                    yield data[:num]
-
-            elif self.num_samples > 0:  # amount of samples to collect is specified by user
-                samples_count = 0  # num_samples counter
-                while samples_count < self.num_samples:
-                    anz = min(num, self.num_samples - samples_count)
-                    data, self.overflow = stream.read(num)
-                    yield data[:anz]
-                    samples_count += anz
-        self.running = False
-        return
+            try:
+                if self.num_samples == -1:
+                    while self.collect_samples:  # yield data as long as collect_samples is True
+                        data, self.overflow = stream.read(num)
+                        yield data[:num]
+
+                elif self.num_samples > 0:  # amount of samples to collect is specified by user
+                    samples_count = 0  # num_samples counter
+                    while samples_count < self.num_samples:
+                        anz = min(num, self.num_samples - samples_count)
+                        data, self.overflow = stream.read(num)
+                        yield data[:anz]
+                        samples_count += anz
+            finally:
+                # also if the recording fails or is not consumed to its end
+                self.running = False
-- 
2.43.0


From 9820edd73ac81d9be83cac2a87e1dcdd971519f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:47 +0000
Subject: [PATCH 41/46] fix: the cross-spectral matrix of a benchmark file
 stayed that of the previous file

---
 acoular/aiaa/aiaa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index 33bcc16..f9dd01e 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -104,6 +104,9 @@ class CsmAIAABenchmark(PowerSpectraImport):
     #: HDF5 file object
     h5f = Instance(H5FileBase, transient=True)
 
+    #: The cross spectral matrix, is read from the file. (read-only)
+    csm = Property(depends_on=['digest'], desc='cross spectral matrix')
+
     # internal identifier
     digest = Property(depends_on=['basename', '_csmsum'])
 
@@ -146,7 +149,7 @@ class CsmAIAABenchmark(PowerSpectraImport):
         except IndexError:
             return 0
 
-    @property_depends_on(['digest'])
+    @cached_property
     def _get_csm(self):
         """Loads cross spectral matrix from file."""
         csmre = self.h5f.get_data_by_reference('/CsmData/csmReal')[:].transpose((2, 0, 1))
-- 
2.43.0


From 351b5191351c1399c8fffc5adae2b57ce274bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:00 +0000
Subject: [PATCH 42/46] fix: IntegratorSectorTime.num_channels follows items
 added to sectors

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index d8738a9..2a1e776 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -789,7 +789,7 @@ class IntegratorSectorTime(TimeOut):
     clip = Float(-350.0)
 
     #: Number of channels in output (= number of sectors).
-    num_channels = Property(depends_on=['sectors'])
+    num_channels = Property(depends_on=['sectors[]'])
 
     # internal identifier
     digest = Property(
-- 
2.43.0


From be23dafb812d92aecb9afd25dff7444d48ed2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:14 +0000
Subject: [PATCH 43/46] fix: process sources of unknown length in MaskedTimeOut
 and deliver all samples of sources that end early

---
 acoular/tprocess.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index b9e533d..7e6cd88 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -192,8 +192,19 @@ class MaskedTimeOut(TimeOut):
 
     @cached_property
     def _get_num_samples(self):
-        sli = slice(self.start, self.stop).indices(self.num_samples_total)
-        return sli[1] - sli[0]
+        if self.num_samples_total < 0:  # unknown number of samples
+            return -1
+        start, stop = self._sample_range()
+        return stop - start
+
+    def _sample_range(self):
+        # first valid sample and first sample after the valid ones
+        if self.num_samples_total >= 0:
+            return slice(self.start, self.stop).indices(self.num_samples_total)[:2]
+        if self.start < 0 or (self.stop is not None and self.stop < 0):
+            msg = 'cannot count from the end of a source with an unknown number of samples'
+            raise ValueError(msg)
+        return self.start, inf if self.stop is None else self.stop
 
     def result(self, num):
         """Python generator that yields the output block-wise.
@@ -210,14 +221,12 @@ class MaskedTimeOut(TimeOut):
             The last block may be shorter than num.
 
         """
-        sli = slice(self.start, self.stop).indices(self.num_samples_total)
-        start = sli[0]
-        stop = sli[1]
+        start, stop = self._sample_range()
         if start >= stop:
             msg = 'no samples available'
             raise OSError(msg)
 
-        if start != 0 or stop != self.num_samples_total:
+        if start != 0 or stop not in (self.num_samples_total, inf):
             offset = -start % num
             if offset == 0:
                 offset = num
@@ -251,6 +260,9 @@ class MaskedTimeOut(TimeOut):
                     yield buf[:num]
                     buf[: bsize - num, :] = buf[num:bsize, :]
                     bsize -= num
+            else:  # the source ends before the stop sample
+                if bsize > 0:
+                    yield buf[:bsize, :]
 
         else:  # if no start/stop given, don't do the resorting thing
             for block in self.source.result(num):
-- 
2.43.0


From 574f2ae981386b6f7bc2de0e6038a3b22ed33897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:26 +0000
Subject: [PATCH 44/46] fix: convolve sources of unknown length completely

---
 acoular/tprocess.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 7e6cd88..b1913a0 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -2040,11 +2040,7 @@ class TimeConvolve(TimeOut):
         self._block_size = num
         L = self.kernel.shape[0]
         N = self.source.num_channels
-        M = self.source.num_samples
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
-        Q = int(ceil(M / num))  # number of signal blocks
-        R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num or num  # size of final block
 
         kernel_blocks = self._kernel_blocks
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
@@ -2054,14 +2050,7 @@ class TimeConvolve(TimeOut):
         signal_blocks = self.source.result(num)
         temp = next(signal_blocks)
         buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        # for very short signals, we are already done
-        if R == 1:
-            _append_to_fdl(fdl, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
-            # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-            yield irfft(spec_sum, axis=0)[num : last_size + num]
-            return
+        M = temp.shape[0]  # number of signal samples, may be unknown in advance
 
         # stream processing of source signal
         for temp in signal_blocks:
@@ -2073,6 +2062,11 @@ class TimeConvolve(TimeOut):
                 axis=0,
             )  # shift input buffer to the left
             buff[num : num + temp.shape[0]] = temp  # append new time-data
+            M += temp.shape[0]
+
+        Q = int(ceil(M / num))  # number of signal blocks
+        R = int(ceil((L + M - 1) / num))  # number of output blocks
+        last_size = (L + M - 1) % num or num  # size of final block
 
         for _ in range(R - Q):
             _append_to_fdl(fdl, rfft(buff, axis=0))
-- 
2.43.0


From be0a97adfe46c780f8c02640582fbf2fda14e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:37 +0000
Subject: [PATCH 45/46] fix: zero-phase filter and WAV export of sources of
 unknown length

---
 acoular/tprocess.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index b1913a0..01f7ddd 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1570,12 +1570,8 @@ class FiltFiltOctave(FiltOctave):
 
         """
         sos = self.sos
-        data = empty((self.source.num_samples, self.source.num_channels))
-        j = 0
-        for block in self.source.result(num):
-            ns, nc = block.shape
-            data[j : j + ns] = block
-            j += ns
+        # the number of samples may be unknown in advance
+        data = concatenate([empty((0, self.source.num_channels)), *(block.copy() for block in self.source.result(num))])
         # filter one channel at a time to save memory
         for j in range(self.source.num_channels):
             data[:, j] = sosfiltfilt(sos, data[:, j])
@@ -1821,7 +1817,6 @@ class WriteWAV(TimeOut):
             wf.setnchannels(nc)
             wf.setsampwidth(2)
             wf.setframerate(self.source.sample_freq)
-            wf.setnframes(self.source.num_samples)
             mx = 0.0
             ind = array(self.channels)
             for data in self.source.result(1024):
-- 
2.43.0


From 4101f229e29617866cfd6027be7bcfe6b3bbd74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:04 +0000
Subject: [PATCH 46/46] fix: scale the cross spectral matrix of sources of
 unknown length by the number of blocks

---
 acoular/spectra.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 0f4e7bb..2fd88a3 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -391,16 +391,20 @@ class PowerSpectra(BaseSpectra):
         csm_shape = (numfreq, t.num_channels, t.num_channels)
         csm_upper = zeros(csm_shape, dtype=self.precision)
         # get time data blockwise
+        num_blocks = 0
         for data in self._get_source_data():
             ft = fft.rfft(data * wind, None, 0).astype(self.precision)
             calcCSM(csm_upper, ft)  # only upper triangular part of matrix is calculated (for speed reasons)
+            num_blocks += 1
+        if t.num_samples >= 0:  # else only the counted blocks are known
+            num_blocks = self.num_blocks
         # create the full csm matrix via transposing and complex conj.
         csm_lower = csm_upper.conj().transpose(0, 2, 1)
         [fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
         csm = csm_lower + csm_upper
         # onesided spectrum: multiplication by 2.0=sqrt(2)^2
         # the factor is no numpy scalar, which would determine the precision of the result
-        return csm * float(2.0 / self.block_size / weight / self.num_blocks)
+        return csm * float(2.0 / self.block_size / weight / num_blocks)
 
     def calc_ev(self):
         """
-- 
2.43.0

