From 1ec142d4fabcdda656926a7d7815474cd5364bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 01/80] fix: SampleSplitter delivers the whole stream to every
 object under concurrent use

Inspecting and filling the block buffers was not atomic, so blocks could be lost or
reordered between threads, the end of the stream or an error of the source truncated the
stream of other objects, individual buffer sizes were ignored by the overflow check and a
splitter could not be used again after an overflow. Blocks of sources that reuse their
output array were overwritten while waiting in the buffers.
---
 acoular/process.py | 112 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 79 insertions(+), 33 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 856c30a..ab2cab9 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -496,6 +496,23 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # Exception that ended the source generator, it is raised for all objects reading from it.
+    _source_error = Any()
+
+    # Registered objects that have not started to read from the current source generator.
+    _waiting_objs = Any()
+
+    # Objects that are reading from the current source generator.
+    _reading_objs = Any()
+
+    # Lock that makes inspecting and filling the block buffers a single step for all threads.
+    _lock = Any(transient=True)
+
+    def traits_init(self):
+        self._lock = threading.Lock()
+        self._waiting_objs = []
+        self._reading_objs = []
+
     def _create_block_buffer(self, obj, buffer_size=None):
         if buffer_size is None:
             buffer_size = self.buffer_size if isinstance(self.buffer_size, int) else self.buffer_size[obj]
@@ -511,6 +528,8 @@ class SampleSplitter(InOut):
 
     def _remove_block_buffer(self, obj):
         del self.block_buffer[obj]
+        if obj in self._waiting_objs:
+            self._waiting_objs.remove(obj)
 
     def _remove_buffer_overflow_treatment(self, obj):
         del self.buffer_overflow_treatment[obj]
@@ -525,7 +544,7 @@ class SampleSplitter(InOut):
 
     def _inspect_buffer_levels(self, inspect_objs):
         for obj in inspect_objs:
-            if len(self.block_buffer[obj]) == self.buffer_size:
+            if len(self.block_buffer[obj]) == self.block_buffer[obj].maxlen:
                 if self.buffer_overflow_treatment[obj] == 'error':
                     self._buffer_overflow = True
                 elif self.buffer_overflow_treatment[obj] == 'warning':
@@ -535,17 +554,21 @@ class SampleSplitter(InOut):
         for obj in self.block_buffer:
             self._clear_block_buffer(obj)
         self._buffer_overflow = False  # reset overflow bool
+        self._source_error = None
+        self._waiting_objs = list(self.block_buffer)
+        self._reading_objs = []
         self._source_generator = LockedGenerator(self.source.result(num))
         self._source_generator_exist = True  # indicates full generator
 
     def _fill_block_buffers(self):
-        next_block = next(self._source_generator)
+        # the source may reuse its output array for the next block
+        next_block = next(self._source_generator).copy()
+        self._inspect_buffer_levels(self._get_objs_to_inspect())
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
-        for obj in self.block_buffer:
-            self._remove_block_buffer(obj)
+        for obj in list(self.block_buffer):
             self._create_block_buffer(obj)
 
     def register_object(self, *objects_to_register, buffer_size=None, buffer_overflow_treatment=None):
@@ -578,13 +601,14 @@ class SampleSplitter(InOut):
         :obj:`OSError`
             If any of the specified objects is already registered.
         """  # noqa: W505
-        for obj in objects_to_register:
-            if obj not in self.block_buffer:
-                self._create_block_buffer(obj, buffer_size)
-                self._create_buffer_overflow_treatment(obj, buffer_overflow_treatment)
-            else:
-                msg = f'object {obj} is already registered.'
-                raise OSError(msg)
+        with self._lock:
+            for obj in objects_to_register:
+                if obj not in self.block_buffer:
+                    self._create_block_buffer(obj, buffer_size)
+                    self._create_buffer_overflow_treatment(obj, buffer_overflow_treatment)
+                else:
+                    msg = f'object {obj} is already registered.'
+                    raise OSError(msg)
 
     def remove_object(self, *objects_to_remove):
         """
@@ -612,11 +636,12 @@ class SampleSplitter(InOut):
           :class:`SampleSplitter`.
         - Removing an object also clears its associated buffer.
         """  # noqa: W505
-        if not objects_to_remove:
-            objects_to_remove = list(self.block_buffer.keys())
-        for obj in objects_to_remove:
-            self._remove_block_buffer(obj)
-            self._remove_buffer_overflow_treatment(obj)
+        with self._lock:
+            if not objects_to_remove:
+                objects_to_remove = list(self.block_buffer.keys())
+            for obj in objects_to_remove:
+                self._remove_block_buffer(obj)
+                self._remove_buffer_overflow_treatment(obj)
 
     def result(self, num):
         """
@@ -655,24 +680,45 @@ class SampleSplitter(InOut):
         """
         calling_obj = currentframe().f_back.f_locals['self']
         self._assert_obj_registered(calling_obj)
-        objs_to_inspect = self._get_objs_to_inspect()
 
-        if not self._source_generator_exist:
-            self._create_source_generator(num)
-
-        while not self._buffer_overflow:
-            if self.block_buffer[calling_obj]:
-                yield self.block_buffer[calling_obj].pop()
-            else:
-                self._inspect_buffer_levels(objs_to_inspect)
-                try:
-                    self._fill_block_buffers()
-                except StopIteration:
-                    self._source_generator_exist = False
-                    return
-        else:
-            msg = 'Maximum size of block buffer is reached!'
-            raise OSError(msg)
+        with self._lock:
+            # an object that did not start yet joins the others as long as they are still reading
+            joins = self._source_generator_exist or (calling_obj in self._waiting_objs and self._reading_objs)
+            if not joins:
+                self._create_source_generator(num)
+            if calling_obj in self._waiting_objs:
+                self._waiting_objs.remove(calling_obj)
+            source_generator = self._source_generator
+            reading_objs = self._reading_objs
+            reading_objs.append(calling_obj)
+
+        try:
+            while True:
+                with self._lock:
+                    if self._source_generator is not source_generator:
+                        msg = 'Another object has restarted the source!'
+                        raise OSError(msg)
+                    if self._buffer_overflow:
+                        self._source_generator_exist = False
+                        msg = 'Maximum size of block buffer is reached!'
+                        raise OSError(msg)
+                    if not self.block_buffer[calling_obj]:
+                        try:
+                            self._fill_block_buffers()
+                        except StopIteration:
+                            self._source_generator_exist = False
+                            if self._source_error is not None:
+                                raise self._source_error from None
+                            return
+                        except BaseException as error:
+                            self._source_generator_exist = False
+                            self._source_error = error
+                            raise
+                        continue
+                    next_block = self.block_buffer[calling_obj].pop()
+                yield next_block
+        finally:
+            reading_objs.remove(calling_obj)
 
 
 class TimeAverage(Average):
-- 
2.43.0


From 4240bb13e2f74267914a88824129a38f254b87cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 02/80] fix: point sources do not read outside of the signal

Receiver times before the first or after the last signal sample by more than the signal
length were read from memory outside of the signal.
---
 acoular/sources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0d3bd5c..0ffeb7f 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -96,18 +96,20 @@ from .trajectory import Trajectory
 
 @nb.njit(cache=True, error_model='numpy')  # pragma: no cover
 def _fill_mic_signal_block(out, signal, rm, ind, blocksize, num_channels, up, prepadding):
+    # no bounds checking here: times outside of the signal continue it periodically
+    num_signal = signal.shape[0]
     if prepadding:
         for b in range(blocksize):
             for m in range(num_channels):
                 if ind[0, m] < 0:
                     out[b, m] = 0
                 else:
-                    out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                    out[b, m] = signal[int(0.5 + ind[0, m]) % num_signal] / rm[0, m]
             ind += up
     else:
         for b in range(blocksize):
             for m in range(num_channels):
-                out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                out[b, m] = signal[int(0.5 + ind[0, m]) % num_signal] / rm[0, m]
             ind += up
     return out
 
-- 
2.43.0


From cfe0eacdd6b7f3ccba91e7344837d762d89f43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 03/80] fix: TimeReverse keeps copies of the blocks of its
 source

---
 acoular/tprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 014f751..06dfeb0 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1426,7 +1426,8 @@ class TimeReverse(TimeOut):
 
         """
         result_list = []
-        result_list.extend(self.source.result(num))
+        # keep copies: the source may reuse its output array
+        result_list.extend(block.copy() for block in self.source.result(num))
         temp = empty_like(result_list[0])
         h = result_list.pop()
         nsh = h.shape[0]
-- 
2.43.0


From 874905cd2a8230862b6f651587f5de6b713d14b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 04/80] fix: Mixer and SourceMixer do not modify the blocks of
 their sources

---
 acoular/sources.py  | 8 ++++++--
 acoular/tprocess.py | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0ffeb7f..1ee18bd 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2317,11 +2317,15 @@ class SourceMixer(SamplesGenerator):
         if weights.size == 0:
             weights = array([1.0 for j in range(len(self.sources))])
         assert weights.shape[0] == len(self.sources)
-        for temp in self.sources[0].result(num):
+        for block in self.sources[0].result(num):
+            temp = block.copy()  # the block belongs to the source
             temp *= weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
-                temp1 = next(g) * weights[j + 1]
+                try:
+                    temp1 = next(g) * weights[j + 1]
+                except StopIteration:
+                    return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
                 temp += temp1[: temp.shape[0]]
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 06dfeb0..ded4e5b 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1329,7 +1329,8 @@ class Mixer(TimeOut):
         self.validate_sources()
 
         gens = [i.result(num) for i in self.sources]
-        for temp in self.source.result(num):
+        for block in self.source.result(num):
+            temp = block.copy()  # the block belongs to the source
             sh = temp.shape[0]
             for g in gens:
                 try:
-- 
2.43.0


From 4ea0f13217ad63b043ad3feb4408614309bf87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 05/80] fix: TimeConvolve convolves with long kernels, single
 kernels and any signal length

---
 acoular/sources.py  |  9 ++++-
 acoular/tprocess.py | 80 ++++++++++++++++++++-------------------------
 2 files changed, 43 insertions(+), 46 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 1ee18bd..58973d4 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2412,6 +2412,9 @@ class PointSourceConvolve(PointSource):
     #: Upsampling factor for internal use. Default is ``None``.
     up = Enum(None, desc='upsampling factor')
 
+    #: Number of samples of the convolved signal. (read-only)
+    num_samples = Property(depends_on=['signal.num_samples', 'kernel'])
+
     #: Unique identifier for the current state of the source,
     #: based on microphone geometry, input signal, source location, and kernel. (read-only)
     digest = Property(depends_on=['mics.digest', 'signal.digest', 'loc', 'kernel'])
@@ -2420,6 +2423,10 @@ class PointSourceConvolve(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    @cached_property
+    def _get_num_samples(self):
+        return self.signal.num_samples + max(self.kernel.shape[0], 1) - 1 if self.signal else 0
+
     def result(self, num=128):
         """
         Generate the convolved signal at microphones in blocks.
@@ -2451,7 +2458,7 @@ class PointSourceConvolve(PointSource):
         source = TimeSamples(
             data=data,
             sample_freq=self.sample_freq,
-            num_samples=self.num_samples,
+            num_samples=self.signal.num_samples,
             num_channels=self.mics.num_mics,
         )
         time_convolve = TimeConvolve(
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index ded4e5b..9b7ea67 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1966,6 +1966,9 @@ class TimeConvolve(TimeOut):
     # it is applied to all channels.
     kernel = CArray(dtype=float, desc='Convolution kernel.')
 
+    # Number of samples of the convolved signal.
+    num_samples = Property(depends_on=['source.num_samples', 'kernel'])
+
     _block_size = Int(desc='Block size')
 
     _kernel_blocks = Property(
@@ -1980,6 +1983,13 @@ class TimeConvolve(TimeOut):
     def _get_digest(self):
         return digest(self)
 
+    @cached_property
+    def _get_num_samples(self):
+        if self.source is None:
+            return 0
+        M = self.source.num_samples
+        return M + max(self.kernel.shape[0], 1) - 1 if M > 0 else M
+
     def _validate_kernel(self):
         # reshape kernel for broadcasting
         if self.kernel.ndim == 1:
@@ -2032,71 +2042,51 @@ class TimeConvolve(TimeOut):
         self._validate_kernel()
         # initialize variables
         self._block_size = num
+        kernel_blocks = self._kernel_blocks  # other passes may use another block size
         L = self.kernel.shape[0]
         N = self.source.num_channels
-        M = self.source.num_samples
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
-        Q = int(ceil(M / num))  # number of signal blocks
-        R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num  # size of final block
 
-        idx = 0
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
         buff = zeros([2 * num, N])  # time-domain input buffer
         spec_sum = zeros([num + 1, N], dtype='complex128')
 
+        n_in = 0  # number of samples read from the source
+        n_out = 0  # number of samples delivered
         signal_blocks = self.source.result(num)
-        temp = next(signal_blocks)
-        buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        # for very short signals, we are already done
-        if R == 1:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-            yield irfft(spec_sum, axis=0)[num : last_size + num]
-            return
-
-        # stream processing of source signal
-        for temp in signal_blocks:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            yield irfft(spec_sum, axis=0)[num:]
-            buff = concatenate(
-                [buff[num:], zeros([num, N])],
-                axis=0,
-            )  # shift input buffer to the left
-            buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        for _ in range(R - Q):
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            yield irfft(spec_sum, axis=0)[num:]
-            buff = concatenate(
-                [buff[num:], zeros([num, N])],
-                axis=0,
-            )  # shift input buffer to the left
-
-        _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-        spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-        # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-        yield irfft(spec_sum, axis=0)[num : last_size + num]
+        while True:
+            temp = next(signal_blocks, None)
+            ns = 0 if temp is None else temp.shape[0]
+            n_in += ns
+            # total length is L+M-1 (like numpy convolve w/ mode="full")
+            size = num if ns == num else min(num, n_in + L - 1 - n_out)
+            if n_in == 0 or size <= 0:
+                break
+            buff[:num] = buff[num:]  # shift input buffer to the left
+            buff[num : num + ns] = 0 if temp is None else temp  # append new time-data
+            buff[num + ns :] = 0
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
+            yield irfft(spec_sum, axis=0)[num : size + num]
+            n_out += size
 
 
 @nb.jit(nopython=True, cache=True)
-def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
-    fdl[idx] = buff
-    idx = int(idx + 1 % numblocks_kernel)
+def _append_to_fdl(fdl, buff):  # pragma: no cover
+    for i in range(fdl.shape[0] - 1, 0, -1):
+        fdl[i] = fdl[i - 1]
+    fdl[0] = buff
 
 
 @nb.jit(nopython=True, cache=True)
 def _spectral_sum(out, fdl, kb):  # pragma: no cover
-    P, B, N = kb.shape
+    P, B, N = fdl.shape
     for n in range(N):
+        k = n if kb.shape[2] > 1 else 0  # a single kernel applies to all channels
         for b in range(B):
             out[b, n] = 0
             for i in range(P):
-                out[b, n] += fdl[i, b, n] * kb[i, b, n]
+                out[b, n] += fdl[i, b, n] * kb[i, b, k]
 
     return out
 
-- 
2.43.0


From 8a6d15005c760dc566578bb6bba070bca3ac787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 06/80] fix: line sources leave their signal unchanged and
 repeat the same output in every pass and process

---
 acoular/sources.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 58973d4..ffa24b4 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1639,6 +1639,22 @@ class LineSource(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    def _get_source_signals(self):
+        # the signals of all monopoles of the line; the signal object is left as it was
+        if self.coherence == 'coherent':
+            usignal = self.signal.usignal(self.up)
+            return array([usignal * self.source_strength[s] for s in range(self.num_sources)])
+        seed = self.signal.seed
+        first_seed = int(self.digest[1:], 16) % 2**31  # the same in every pass and process
+        signals = []
+        try:
+            for s in range(self.num_sources):
+                self.signal.seed = first_seed + s  # new seed for every source
+                signals.append(self.signal.usignal(self.up) * self.source_strength[s])
+        finally:
+            self.signal.seed = seed
+        return array(signals)
+
     def result(self, num=128):
         """
         Generate the output signal at microphones in blocks.
@@ -1678,16 +1694,11 @@ class LineSource(PointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
+        signals = self._get_source_signals()
         # for every source - distances
         for s in range(self.num_sources):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
-            # new seed for every source
-            if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
         i = 0
         n = self.num_samples
         while n:
@@ -1900,14 +1911,7 @@ class MovingLineSource(LineSource, MovingPointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
-        # coherence
-        for s in range(self.num_sources):
-            # new seed for every source
-            if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+        signals = self._get_source_signals()
         mpos = self.mics.pos
 
         # shortcuts and initial values
-- 
2.43.0


From c2d1fa3f84e6c54f84d8d5ce5ab2ad722aa2af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 07/80] fix: dipole and line sources do not end with an empty
 block

---
 acoular/sources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index ffa24b4..44239fe 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1349,7 +1349,8 @@ class PointSourceDipole(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
@@ -1576,7 +1577,8 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class LineSource(PointSource):
@@ -1717,7 +1719,8 @@ class LineSource(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingLineSource(LineSource, MovingPointSource):
@@ -1950,7 +1953,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 @deprecated_alias({'numchannels': 'num_channels'}, read_only=True)
-- 
2.43.0


From 67fcfcaf5a5537187fd0865daf0eaf8dafd7b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 08/80] fix: time domain beamformers apply spatial weights once
 to every sample

---
 acoular/tbeamform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 34daa16..47e84e9 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -73,7 +73,7 @@ def const_power_weight(bf):
     array of floats
         The weight factors.
     """
-    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos)  # distances to center
+    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos).ravel()  # distances to center
     # round the relative distances to one decimal place
     r = (r / r.max()).round(decimals=1)
     ru, ind = unique(r, return_inverse=True)
@@ -171,7 +171,7 @@ class BeamformerTime(TimeOut):
             dtype=fdtype,
         )
         for p_res in buffer.result(num):
-            p_res *= weights
+            p_res = p_res * weights  # (the overlap is still needed in the buffer)
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
                 n_index = arange(0, num + 1)[:, newaxis]
@@ -422,7 +422,7 @@ class BeamformerTimeTraj(BeamformerTime):
             buffer.result_num = num + max_sample_delay
 
             try:
-                time_block = next(buffered_result)
+                time_block = next(buffered_result).copy()  # the overlap is still needed in the buffer
                 time_block *= weights
             except StopIteration:
                 break
-- 
2.43.0


From 8e2874704296529713cc19e37b8211944aec758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 09/80] fix: time domain beamformers end when the remaining
 samples are not sufficient

---
 acoular/tbeamform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 47e84e9..577517d 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -174,6 +174,8 @@ class BeamformerTime(TimeOut):
             p_res = p_res * weights  # (the overlap is still needed in the buffer)
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
+                if num <= 0:  # remaining samples are not sufficient
+                    break
                 n_index = arange(0, num + 1)[:, newaxis]
             # init step
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
@@ -428,6 +430,8 @@ class BeamformerTimeTraj(BeamformerTime):
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
                 num = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
+                if num == 0:  # remaining samples are not sufficient
+                    break
                 n_index = arange(num, dtype=idtype)[:, newaxis]
                 flag = False
             # init step
-- 
2.43.0


From 303fd15c8d05ec783d9894560dbe15f4f0983506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 10/80] fix: CrossPowerSpectra delivers upper and lower
 triangle

---
 acoular/fprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 8f9e7d9..81f7477 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -391,7 +391,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels'])
+    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
@@ -444,10 +444,10 @@ class CrossPowerSpectra(AutoPowerSpectra):
                     [np.fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
                     csm_flat[i] = (csm_lower + csm_upper).reshape(-1)
                 elif self.calc_mode == 'upper':
-                    csm_flat[i] = csm_upper[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_upper[(slice(None), *np.triu_indices(nc_src))].reshape(-1)
                 else:  # lower
                     csm_lower = csm_upper.conj().transpose(0, 2, 1)
-                    csm_flat[i] = csm_lower[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_lower[(slice(None), *np.tril_indices(nc_src))].reshape(-1)
                 csm_upper[...] = 0  # calcCSM adds cumulative
             yield csm_flat[: i + 1] * scale
 
-- 
2.43.0


From 8ff9bd2848c9717feb9253cdd5b88c568c4eb3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 11/80] fix: filter banks process a shorter last block

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 9b7ea67..e64efe3 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1717,8 +1717,8 @@ class FilterBank(TimeOut):
         snumch = self.source.num_channels
         sos = self.sos
         zi = [zeros((sos[0].shape[0], 2, snumch)) for _ in range(numbands)]
-        res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
+            res = zeros((block.shape[0], self.num_channels), dtype='float')  # last block may be shorter
             for i in range(numbands):
                 res[:, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
             yield res
-- 
2.43.0


From 2152dfc92e237e3a1e967df383f21475f6ee5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 12/80] fix: RFFT announces and yields one spectrum per
 complete (overlapping) block

---
 acoular/fprocess.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 81f7477..550b555 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size'])
+    num_samples = Property(depends_on=['source.num_samples', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -93,7 +93,10 @@ class RFFT(BaseSpectra, SpectraOut):
     @cached_property
     def _get_num_samples(self):
         if self.source.num_samples >= 0:
-            return int(np.floor(self.source.num_samples / self.block_size))
+            bs = self.block_size
+            if self.source.num_samples < bs:
+                return 0
+            return int(1 + (self.source.num_samples - bs) * self.overlap_ // bs)
         return -1
 
     def _get_block_size(self):
@@ -157,7 +160,7 @@ class RFFT(BaseSpectra, SpectraOut):
             svalue = 1 / wind.sum()
         wind = wind[:, np.newaxis]
         fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
-        j = 0
+        j = num - 1  # nothing to yield yet
         for i, data in enumerate(self._get_source_data()):  # yields one block of time data
             j = i % num
             fftdata[j] = self._scale(
-- 
2.43.0


From 5fcc57efb24e375d039aeac2e3bb19237d6220f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 13/80] fix: SpatialInterpolatorRotation reads the angles of
 its angle source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e64efe3..5d9b5d7 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1200,7 +1200,7 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
         # period for rotation
         period = 2 * pi
         # get angle
-        angle = self.angle_source.angle()
+        angle = self.angle_source.angle
         # counter to track angle position in time for each block
         count = 0
         for timeData in self.source.result(num):
-- 
2.43.0


From 0e5e832a4ed21e3b5300de3aa4d378af68d0de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 14/80] fix: WriteH5 closes its file if writing is interrupted

---
 acoular/tprocess.py | 66 +++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 5d9b5d7..e4c13b9 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1884,19 +1884,25 @@ class WriteH5(TimeOut):
         file = _get_h5file_class()
         self.create_filename()
         f5h = file(self.file, mode='w')
-        f5h.create_extendable_array('time_data', (0, self.num_channels), self.precision)
-        ac = f5h.get_data_by_reference('time_data')
-        f5h.set_node_attribute(ac, 'sample_freq', self.sample_freq)
-        self.add_metadata(f5h)
+        try:
+            f5h.create_extendable_array('time_data', (0, self.num_channels), self.precision)
+            ac = f5h.get_data_by_reference('time_data')
+            f5h.set_node_attribute(ac, 'sample_freq', self.sample_freq)
+            self.add_metadata(f5h)
+        except BaseException:
+            f5h.close()
+            raise
         return f5h
 
     def save(self):
         """Saves source output to `*.h5` file."""
         f5h = self.get_initialized_file()
-        ac = f5h.get_data_by_reference('time_data')
-        for data in self.source.result(4096):
-            f5h.append_data(ac, data)
-        f5h.close()
+        try:
+            ac = f5h.get_data_by_reference('time_data')
+            for data in self.source.result(4096):
+                f5h.append_data(ac, data)
+        finally:
+            f5h.close()
 
     def add_metadata(self, f5h):
         """Adds metadata to .h5 file."""
@@ -1929,27 +1935,29 @@ class WriteH5(TimeOut):
         """
         self.write_flag = True
         f5h = self.get_initialized_file()
-        ac = f5h.get_data_by_reference('time_data')
-        scount = 0
-        stotal = self.num_samples_write
-        source_gen = self.source.result(num)
-        while self.write_flag:
-            sleft = stotal - scount
-            if stotal != -1 and sleft > 0:
-                anz = min(num, sleft)
-            elif stotal == -1:
-                anz = num
-            else:
-                break
-            try:
-                data = next(source_gen)
-            except StopIteration:
-                break
-            f5h.append_data(ac, data[:anz])
-            f5h.flush()
-            yield data
-            scount += anz
-        f5h.close()
+        try:
+            ac = f5h.get_data_by_reference('time_data')
+            scount = 0
+            stotal = self.num_samples_write
+            source_gen = self.source.result(num)
+            while self.write_flag:
+                sleft = stotal - scount
+                if stotal != -1 and sleft > 0:
+                    anz = min(num, sleft)
+                elif stotal == -1:
+                    anz = num
+                else:
+                    break
+                try:
+                    data = next(source_gen)
+                except StopIteration:
+                    break
+                f5h.append_data(ac, data[:anz])
+                f5h.flush()
+                yield data
+                scount += anz
+        finally:  # also if the generator is closed early or the source fails
+            f5h.close()
 
 
 class TimeConvolve(TimeOut):
-- 
2.43.0


From 34a3b84e99c59cdb40084717d201c70ec1b1b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 15/80] fix: PointSource with zero prepadding delivers the
 announced number of samples if it starts late

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 44239fe..6ededb4 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -916,7 +916,7 @@ class PointSource(SamplesGenerator):
 
         if self.prepadding == 'zeros':
             # number of blocks where signal behaviour is amended
-            pre = -int(npmin(ind[0]) // (self.up * num))
+            pre = max(0, -int(npmin(ind[0]) // (self.up * num)))
             # amend signal for first blocks
             # if signal stops during prepadding, terminate
             if pre >= N:
-- 
2.43.0


From e61f8501862fbc4303fdc2a2a994502f35eebb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 16/80] fix: FiltFiltOctave does not filter uninitialised
 memory if its source ends early

---
 acoular/tprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e4c13b9..dd966c1 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1584,6 +1584,7 @@ class FiltFiltOctave(FiltOctave):
             ns, nc = block.shape
             data[j : j + ns] = block
             j += ns
+        data = data[:j]  # the source may deliver fewer samples than announced
         # filter one channel at a time to save memory
         for j in range(self.source.num_channels):
             data[:, j] = sosfiltfilt(sos, data[:, j])
-- 
2.43.0


From a37b25be77db0076b18c55cb716af44a0fbee78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:39 +0000
Subject: [PATCH 17/80] fix: TimeReverse can read from a SampleSplitter

---
 acoular/tprocess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index dd966c1..0ab2c0e 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1427,8 +1427,9 @@ class TimeReverse(TimeOut):
 
         """
         result_list = []
-        # keep copies: the source may reuse its output array
-        result_list.extend(block.copy() for block in self.source.result(num))
+        for block in self.source.result(num):
+            # keep copies: the source may reuse its output array
+            result_list.append(block.copy())  # noqa: PERF401
         temp = empty_like(result_list[0])
         h = result_list.pop()
         nsh = h.shape[0]
-- 
2.43.0


From 79ac74bb970be24aa461fd56df2290b44e819d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 18/80] fix: Cache accepts a source that yields no data

---
 acoular/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index ab2cab9..7450b50 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -267,6 +267,7 @@ class Cache(InOut):
 
     def _write_data_to_cache(self, num):
         nodename = 'tc_' + self.digest
+        ac = None
         for i, data in enumerate(self.source.result(num)):
             if i == 0:
                 self.h5f.create_extendable_array(nodename, (0, data.shape[1]), data.dtype.name)
@@ -276,7 +277,8 @@ class Cache(InOut):
             self.h5f.append_data(ac, data)
             self.h5f.flush()
             yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if ac is not None:  # nothing is cached if the source has no data
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     def _get_data_from_cache(self, num):
         nodename = 'tc_' + self.digest
-- 
2.43.0


From 9be0c28c797c1b0089b74f2ff5e7a07cc2f02313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 19/80] fix: HDF5Cache stays usable after errors, with threads
 and after a change of the caching mode

---
 acoular/h5cache.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index c073543..9d63c73 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -5,9 +5,10 @@
 # imports from other packages
 import gc
 from pathlib import Path
+from threading import RLock
 from weakref import WeakValueDictionary
 
-from traits.api import Bool, Delegate, Dict, HasStrictTraits, Instance
+from traits.api import Any, Delegate, Dict, HasStrictTraits, Instance
 
 from .configuration import Config, config
 from .h5files import _get_cachefile_class
@@ -20,19 +21,24 @@ class HDF5Cache(HasStrictTraits):
 
     cache_dir = Delegate('config')
 
-    busy = Bool(False)
+    # Only one thread at a time opens and closes cache files.
+    _lock = Any(factory=RLock)
 
     open_files = WeakValueDictionary()
 
     open_file_reference = Dict(key_trait=Path, value_trait=int)
 
-    def _idle_if_busy(self):
-        while self.busy:
-            pass
-
     def close_cachefile(self, cachefile):
-        self.open_file_reference.pop(Path(cachefile.filename))
-        cachefile.close()
+        if self._is_open(cachefile):
+            self.open_file_reference.pop(Path(cachefile.filename), None)
+            cachefile.close()
+
+    def _is_open(self, file):
+        # h5py files are false if closed
+        return file.isopen if hasattr(file, 'isopen') else bool(file)
+
+    def _is_usable(self, file):
+        return self._is_open(file) and (file.mode != 'r' or config.global_caching == 'readonly')
 
     def get_open_cachefiles(self):
         try:
@@ -62,7 +68,7 @@ class HDF5Cache(HasStrictTraits):
         self.open_file_reference[filename] = self.open_file_reference.get(filename, 0) + 1
 
     def _decrease_file_reference_counter(self, filename):
-        self.open_file_reference[filename] = self.open_file_reference[filename] - 1
+        self.open_file_reference[filename] = self.open_file_reference.get(filename, 1) - 1
 
     def get_cache_directories(self):
         """Return a list of all used cache directories (if multiple paths exist)."""
@@ -81,21 +87,28 @@ class HDF5Cache(HasStrictTraits):
 
     def get_cache_file(self, obj, basename, mode='a'):
         """Returns pytables .h5 file to h5f trait of calling object for caching."""
-        self._idle_if_busy()  #
-        self.busy = True
+        with self._lock:
+            self._get_cache_file(obj, basename, mode)
+
+    def _get_cache_file(self, obj, basename, mode):
         file_cls = _get_cachefile_class()
         filename = (Path(self.cache_dir) / (basename + '_cache.h5')).resolve()
 
         if config.global_caching == 'readonly' and not filename.exists():
             obj.h5f = None
-            self.busy = False
             return  # cachefile is not created in readonly mode
 
+        file = self.open_files.get(filename)
+        if file is not None and not self._is_usable(file):
+            # closed by someone else, or opened for reading only while it has to be written now
+            self.close_cachefile(file)
+            del self.open_files[filename]
+
         if isinstance(obj.h5f, file_cls):
-            if Path(obj.h5f.filename).resolve() == filename:
-                self.busy = False
+            if obj.h5f is self.open_files.get(filename):
                 return
-            self._decrease_file_reference_counter(obj.h5f.filename)
+            if self._is_open(obj.h5f):
+                self._decrease_file_reference_counter(Path(obj.h5f.filename))
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
@@ -109,7 +122,6 @@ class HDF5Cache(HasStrictTraits):
         # garbage collection
         self.close_unreferenced_cachefiles()
 
-        self.busy = False
         self._print_open_files()
 
 
-- 
2.43.0


From f3259a81d622dea53045c7c9cc09cd53c80d7b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 20/80] fix: no data of an interrupted run is taken from freed
 space of the cache file

---
 acoular/h5files.py | 4 ++++
 acoular/process.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/acoular/h5files.py b/acoular/h5files.py
index a91e65f..7b81561 100644
--- a/acoular/h5files.py
+++ b/acoular/h5files.py
@@ -79,6 +79,8 @@ if config.have_tables:
 
         def remove_data(self, nodename):
             self.remove_node('/', nodename, recursive=True)
+            # the space in the file will be used again, the removal must reach the file first
+            self.flush()
 
         def create_new_group(self, name, group=None):
             if not group:
@@ -155,6 +157,8 @@ if config.have_h5py:
         def remove_data(self, nodename, group=None):
             in_file_path = self._get_in_file_path(nodename, group)
             del self[in_file_path]
+            # the space in the file will be used again, the removal must reach the file first
+            self.flush()
 
         def create_new_group(self, name, group=None):
             in_file_path = self._get_in_file_path(name, group)
diff --git a/acoular/process.py b/acoular/process.py
index 7450b50..1032f6f 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -305,8 +305,8 @@ class Cache(InOut):
                 self.h5f.set_node_attribute(ac, 'sample_freq', self.sample_freq)
                 self.h5f.set_node_attribute(ac, 'complete', False)
             self.h5f.append_data(ac, data)
+            self.h5f.flush()
             if j >= nblocks:
-                self.h5f.flush()
                 yield data
         self.h5f.set_node_attribute(ac, 'complete', True)
 
-- 
2.43.0


From 32793f7c0872688a2a4703a2e9f80df86bdd6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 21/80] fix: beamformers, spectra and point spread functions
 recover from interrupted caching

---
 acoular/fbeamform.py | 51 +++++++++++++++++++++++++++++++-------------
 acoular/spectra.py   | 11 +++++++++-
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4baf27..626a95e 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -58,7 +58,6 @@ from numpy import (
     index_exp,
     inf,
     integer,
-    invert,
     isscalar,
     log10,
     ndarray,
@@ -376,6 +375,16 @@ class BeamformerBase(HasStrictTraits):
             #            print("remove existing data for nodename",nodename)
             self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
 
+        if self.h5f.is_cached(nodename):
+            # creation of the data may have been interrupted
+            nodes = {'freqs', 'result'}
+            if isinstance(self, BeamformerAdaptiveGrid):
+                nodes.add('gpos')
+            if not nodes.issubset(name for name, _ in self.h5f.get_child_nodes('/' + nodename)):
+                if config.global_caching == 'readonly':
+                    return (None, None, None)
+                self.h5f.remove_data(nodename)
+
         if not self.h5f.is_cached(nodename):
             #            print("no data existent for nodename:", nodename)
             if config.global_caching == 'readonly':
@@ -433,6 +442,8 @@ class BeamformerBase(HasStrictTraits):
                 self._gpos = gpos
         if ac and fr:  # cached data is available
             if config.global_caching == 'readonly':
+                if gpos:
+                    self._gpos = gpos[:]
                 (ac, fr) = (ac[:], fr[:])  # so never write back to disk
         else:
             # no caching or not activated, init numpy arrays
@@ -1030,6 +1041,14 @@ class PointSpreadFunction(HasStrictTraits):
             #            print("remove existing data for nodename",nodename)
             self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
 
+        if self.h5f.is_cached(nodename):
+            # creation of the data may have been interrupted
+            nodes = (name for name, _ in self.h5f.get_child_nodes('/' + nodename))
+            if not {'result', 'gridpts'}.issubset(nodes):
+                if config.global_caching == 'readonly':
+                    return (None, None)
+                self.h5f.remove_data(nodename)
+
         if not self.h5f.is_cached(nodename):
             #            print("no data existent for nodename:", nodename)
             if config.global_caching == 'readonly':
@@ -1068,13 +1087,13 @@ class PointSpreadFunction(HasStrictTraits):
                     if config.global_caching == 'readonly':
                         (ac, gp) = (ac[:], gp[:])
                         self.calc_psf(ac, gp)
-                        return ac[:, self.grid_indices]
+                        return self._select_psf(ac)
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, self.grid_indices]
+                    return self._select_psf(ac)
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, self.grid_indices]
+                return self._select_psf(ac)
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
@@ -1084,31 +1103,31 @@ class PointSpreadFunction(HasStrictTraits):
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
             self.calc_psf(ac, gp)
-        return ac[:, self.grid_indices]
+        return self._select_psf(ac)
+
+    def _select_psf(self, ac):
+        """Select the PSFs for :attr:`grid_indices`, ``ac`` may be a node of a cache file."""
+        ind, inverse = unique(self.grid_indices, return_inverse=True)  # increasing order needed for h5py
+        return ac[:, ind][:, inverse]
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
         if self.calcmode != 'full':
-            # calc_ind has the form [True, True, False, True], except
-            # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else invert(gp[:][self.grid_indices])
-
-            # get indices which have the value True = not yet calculated
-            g_ind_calc = self.grid_indices[calc_ind]
+            # get indices of grid points which are not yet calculated
+            g_ind_calc = self.grid_indices[gp[:][self.grid_indices] == 0]
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
                 ac[:, ind] = self._psf_call([ind])[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
-            gp[:] = 1
             ac[:] = self._psf_call(arange(self.steer.grid.size))
+            gp[:] = 1
         else:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-                gp[ind] = 1
                 ac[:, ind] = hh[:, indh]
-                indh += 1
+                gp[ind] = 1
 
     def _psf_call(self, ind):
         """Manages the calling of the core psf functionality.
@@ -1442,6 +1461,7 @@ class BeamformerOrth(BeamformerBase):
         for i in ind:
             eva = array(self.freq_data.eva[i], dtype='float64')
             eve = array(self.freq_data.eve[i], dtype='complex128')
+            result = zeros(self._ac.shape[1])
             for n in self.eva_list:
                 beamformerOutput = beamformerFreq(
                     param_steer_type,
@@ -1450,7 +1470,8 @@ class BeamformerOrth(BeamformerBase):
                     steer_vector(f[i]),
                     (ones(1), eve[:, n].reshape((-1, 1))),
                 )[0]
-                self._ac[i, beamformerOutput.argmax()] += eva[n] / num_channels
+                result[beamformerOutput.argmax()] += eva[n] / num_channels
+            self._ac[i] = result
             self._fr[i] = 1
 
 
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 94676ff..dc9c6bc 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -523,11 +523,20 @@ class PowerSpectra(BaseSpectra):
                 return func()
             #            print("create array, data not cached for",nodename)
             self.h5f.create_compressible_array(nodename, shape, precision)
+            self.h5f.set_node_attribute(self.h5f.get_data_by_reference(nodename), 'complete', 0)
 
         ac = self.h5f.get_data_by_reference(nodename)
-        if ac[:].sum() == 0:  # only initialized
+        try:
+            complete = bool(self.h5f.get_node_attribute(ac, 'complete'))
+        except (AttributeError, KeyError):  # file was written without this attribute
+            complete = ac[:].sum() != 0
+        if not complete:  # only initialized
+            if config.global_caching == 'readonly':
+                return func()
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
+            self.h5f.flush()  # the data has to be in the file before it is marked as complete
+            self.h5f.set_node_attribute(ac, 'complete', 1)
             self.h5f.flush()
         return ac
 
-- 
2.43.0


From 18bf5277ee0e28c201e1fe145258ed7b565dea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 22/80] fix: digests cover complete arrays and containers and
 keep adjacent values apart

---
 acoular/internal.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index f29480d..e4e6bef 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -3,6 +3,29 @@
 # ------------------------------------------------------------------------------
 
 from hashlib import md5
+from numbers import Real
+
+from numpy import isfinite, ndarray
+from traits.api import HasTraits
+
+
+def _content(value):
+    """Bytes that represent the complete content of a trait value."""
+    if isinstance(value, ndarray):
+        if value.dtype.hasobject:
+            return b'array' + _content(value.tolist())
+        return f'array{value.dtype.str}{value.shape}'.encode() + value.tobytes()
+    if isinstance(value, list | tuple):
+        return b'[' + b','.join(_content(v) for v in value) + b']'
+    if isinstance(value, dict):
+        return b'{' + b','.join(_content(k) + b':' + _content(v) for k, v in value.items()) + b'}'
+    if isinstance(value, HasTraits):
+        if 'digest' in value.trait_names():
+            return str(value.digest).encode('UTF-8')
+        return str(value.__class__).encode('UTF-8') + _content(value.trait_get(sorted(value.copyable_trait_names())))
+    if isinstance(value, Real) and isfinite(value) and value == int(value):
+        value = int(value)  # numbers that compare equal, e.g. 1 and 1.0
+    return str(value).encode('UTF-8')
 
 
 def digest(obj, name='digest'):
@@ -12,10 +35,11 @@ def digest(obj, name='digest'):
         try:
             for i in do_.split('.'):
                 vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
-            str_.append(str(vobj).encode('UTF-8'))
+            str_.append(_content(vobj))
         except:  # noqa: E722
-            pass
-    return '_' + md5(b''.join(str_)).hexdigest()
+            str_.append(b'')
+    # the length of each part keeps adjacent values apart
+    return '_' + md5(b''.join(b'%d:%b' % (len(s), s) for s in str_)).hexdigest()
 
 
 def ldigest(obj_list):
-- 
2.43.0


From 9ca9b9299b111814abdc5cb378c0155bcc039a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 23/80] fix: invalid channels of Calib belong to its digest and
 are noticed when changed in place

---
 acoular/calib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index 06a57e1..cf25360 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -95,10 +95,10 @@ class Calib(InOut):
     invalid_channels = List(int, desc='list of invalid channels')
 
     #: Channel mask to serve as an index for all valid channels, is set automatically.
-    channels = Property(depends_on=['invalid_channels', 'num_mics'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'num_mics'], desc='channel mask')
 
     # Internal identifier
-    digest = Property(depends_on=['source.digest', 'data'])
+    digest = Property(depends_on=['source.digest', 'data', 'invalid_channels[]'])
 
     @on_trait_change('data')
     def set_num_mics(self):
-- 
2.43.0


From cd1367b1110a02eda6ea5f072803a7a4f78c720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 24/80] fix: GeneralFlowEnvironment drops stored interpolators
 after a change of the configuration

---
 acoular/environments.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index f179e06..998d085 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -56,6 +56,7 @@ from scipy.linalg import norm
 from scipy.spatial import ConvexHull
 from traits.api import (
     ABCHasStrictTraits,
+    Any,
     CArray,
     Dict,
     Float,
@@ -819,13 +820,16 @@ class GeneralFlowEnvironment(Environment):
 
     #: A unique identifier based on the environment properties. (read-only)
     digest = Property(
-        depends_on=['c', 'ff.digest', 'N', 'Om'],
+        depends_on=['c', 'ff.digest', 'N', 'Om', 'roi'],
     )
 
     #: A dictionary for storing precomputed interpolators to optimize repeated calculations.
     #: (internal use)
     idict = Dict
 
+    # Configuration and region of interest the stored interpolators belong to.
+    _idict_key = Any
+
     @cached_property
     def _get_digest(self):
         return digest(self)
@@ -837,15 +841,17 @@ class GeneralFlowEnvironment(Environment):
             mpos = array((0, 0, 0), dtype=float32)[:, newaxis]
 
         gt = empty((gpos.shape[-1], mpos.shape[-1]))
+        roi = gpos if self.roi is None else self.roi
+        key = (self.digest, roi.tobytes())
+        if self._idict_key != key:  # stored interpolators are of no use any more
+            self.idict = {}
+            self._idict_key = key
         for micnum, x0 in enumerate(mpos.T):
             key = x0.tobytes()  # make array hashable
             try:
                 li = self.idict[key]  # fetch stored interpolator
             except KeyError:
                 # if interpolator doesn't exist, construct it
-                roi = gpos
-                if self.roi is not None:
-                    roi = self.roi
                 li = self.get_interpolator(roi, x0)
                 self.idict[key] = li
             # do the interpolation
-- 
2.43.0


From e905da45fdfc32166818c80155db7a369176267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 25/80] fix: SteeringVector.r0 with a scalar reference of zero

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 626a95e..54ba71f 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -207,7 +207,7 @@ class SteeringVector(HasStrictTraits):
         if isscalar(self.ref):
             if self.ref > 0:
                 return full((self.grid.size,), self.ref)
-            return self.env._r(self.grid.pos())
+            return self.env._r(self.grid.pos)
         return self.env._r(self.grid.pos, self.ref[:, newaxis])
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
-- 
2.43.0


From f70152023dd10ae94175eea898ab163e5d562cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 26/80] fix: SteeringVector.inv_digest does not depend on the
 steering vector type

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 54ba71f..88733f1 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -220,7 +220,7 @@ class SteeringVector(HasStrictTraits):
 
     @cached_property
     def _get_inv_digest(self):
-        return digest(self)
+        return digest(self, 'inv_digest')
 
     def transfer(self, f, ind=None):
         """Calculates the transfer matrix for one frequency.
-- 
2.43.0


From f9362f37e9a77a1fb3951fbbc541ca582d94eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 27/80] fix: cached point spread functions of close frequencies
 are kept apart

---
 acoular/fbeamform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 88733f1..0839967 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1030,7 +1030,10 @@ class PointSpreadFunction(HasStrictTraits):
         exist and global caching mode is 'readonly'.
         """
         filename = 'psf' + self.digest
-        nodename = (f'Hz_{self.freq:.2f}').replace('.', '_')
+        freq = f'{self.freq:.2f}'
+        if float(freq) != self.freq:  # two digits are not enough
+            freq = repr(self.freq)
+        nodename = f'Hz_{freq}'.replace('.', '_').replace('-', '_')
         #        print("get cachefile:", filename)
         H5cache.get_cache_file(self, filename)
         if not self.h5f:  # only happens in case of global caching readonly
-- 
2.43.0


From 378fd8c254a8417cb77510125ad64b114940b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 28/80] fix: PointSpreadFunction does not replace empty
 grid_indices of the user

---
 acoular/fbeamform.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 0839967..deb05a1 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1074,15 +1074,13 @@ class PointSpreadFunction(HasStrictTraits):
         The point spread function is either loaded or calculated.
         """
         gs = self.steer.grid.size
-        if not self.grid_indices.size:
-            self.grid_indices = arange(gs)
 
         if config.global_caching != 'none':
             #            print("get filecache..")
             (ac, gp) = self._get_filecache()
             if ac and gp:
                 #                print("cached data existent")
-                if not gp[:][self.grid_indices].all():
+                if not gp[:][self._calc_indices()].all():
                     #                    print("calculate missing results")
                     if self.calcmode == 'readonly':
                         msg = "Cannot calculate missing PSF (points) in 'readonly' mode."
@@ -1108,16 +1106,21 @@ class PointSpreadFunction(HasStrictTraits):
             self.calc_psf(ac, gp)
         return self._select_psf(ac)
 
+    def _calc_indices(self):
+        """Indices of the grid points to be considered, all of them if :attr:`grid_indices` is empty."""
+        return self.grid_indices if self.grid_indices.size else arange(self.steer.grid.size)
+
     def _select_psf(self, ac):
         """Select the PSFs for :attr:`grid_indices`, ``ac`` may be a node of a cache file."""
-        ind, inverse = unique(self.grid_indices, return_inverse=True)  # increasing order needed for h5py
+        ind, inverse = unique(self._calc_indices(), return_inverse=True)  # increasing order needed for h5py
         return ac[:, ind][:, inverse]
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
         if self.calcmode != 'full':
             # get indices of grid points which are not yet calculated
-            g_ind_calc = self.grid_indices[gp[:][self.grid_indices] == 0]
+            indices = self._calc_indices()
+            g_ind_calc = indices[gp[:][indices] == 0]
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-- 
2.43.0


From aca565ed7d5f441c1ec6a0524f5016eea6277e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 29/80] fix: psf_precision belongs to the digest of
 BeamformerDamasPlus

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index deb05a1..d6ef002 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1298,7 +1298,7 @@ class BeamformerDamasPlus(BeamformerDamas):
 
     # internal identifier
     digest = Property(
-        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult'],
+        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult', 'psf_precision'],
     )
 
     @cached_property
-- 
2.43.0


From 3bd8b392294bd2d3418582c6558403000928732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 30/80] fix: BeamformerGridlessOrth notices in-place changes of
 bounds and options and does not change environment and options

---
 acoular/fbeamform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index d6ef002..cfb9be7 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -34,6 +34,7 @@
 # imports from other packages
 
 import warnings
+from copy import deepcopy
 from warnings import warn
 
 # check for sklearn version to account for incompatible behavior
@@ -2401,7 +2402,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
 
     # internal identifier
     digest = Property(
-        depends_on=['freq_data.digest', 'steer.digest', 'precision', 'r_diag', 'eva_list', 'bounds', 'shgo'],
+        depends_on=['freq_data.digest', 'steer.digest', 'precision', 'r_diag', 'eva_list', 'bounds[]', 'shgo[]'],
     )
 
     @cached_property
@@ -2458,7 +2459,8 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
             for y in self.bounds[1]:
                 for z in self.bounds[2]:
                     roi.append((x, y, z))
-        self.steer.env.roi = array(roi).T
+        env = env.clone_traits(copy='shallow')  # the environment of the user is left as it is
+        env.roi = array(roi).T
         bmin = array(tuple(map(min, self.bounds)))
         bmax = array(tuple(map(max, self.bounds)))
         for i in ind:
@@ -2482,7 +2484,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
                     )[0][0]  # noqa: B023
 
                 # simplical global homotopy optimizer
-                oR = shgo(func, self.bounds, **shgo_opts)
+                oR = shgo(func, self.bounds, **deepcopy(shgo_opts))  # shgo changes the options
                 # index in grid
                 i1 = i * self.n + j
                 # store result for position
-- 
2.43.0


From bb565de6d962aeeaf727a31557c9c71b7654a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 31/80] fix: BeamformerGridlessOrth result size follows
 eva_list

---
 acoular/fbeamform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index cfb9be7..94cf350 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2414,9 +2414,9 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
         """Sets the list of eigenvalues to consider."""
         self.eva_list = arange(-1, -1 - self.n, -1)
 
-    @property_depends_on('n')
+    @property_depends_on(['n', 'eva_list', 'freq_data.digest'])
     def _get_size(self):
-        return self.n * self.freq_data.fftfreq().shape[0]
+        return self.eva_list.shape[0] * self.freq_data.fftfreq().shape[0]
 
     def _calc(self, ind):
         """Calculates the result for the frequencies defined by :attr:`freq_data`.
@@ -2486,7 +2486,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
                 # simplical global homotopy optimizer
                 oR = shgo(func, self.bounds, **deepcopy(shgo_opts))  # shgo changes the options
                 # index in grid
-                i1 = i * self.n + j
+                i1 = i * self.eva_list.shape[0] + j
                 # store result for position
                 self._gpos[:, i1] = oR['x']
                 # store result for level
-- 
2.43.0


From 0281ded221e3e56022458ba6c216e2ad8eecd4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 32/80] fix: number of samples, channels and sampling frequency
 follow an exchanged source

---
 acoular/fprocess.py | 6 +++---
 acoular/process.py  | 4 ++--
 acoular/spectra.py  | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 550b555..c007437 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size', 'overlap'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -201,7 +201,7 @@ class IRFFT(TimeOut):
     #: The total number of time-domain samples in the output.
     #: Computed as the product of the number of input samples and the block size.
     #: Returns ``-1`` if the number of input samples is negative.
-    num_samples = Property(depends_on=['source.num_samples', 'source._block_size'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', 'source._block_size'])
 
     # Internal signal buffer used for handling arbitrary output block sizes. Optimizes
     # processing when the requested output block size does not match the source block size.
@@ -394,7 +394,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
+    num_channels = Property(depends_on=['source.num_channels', 'source.digest', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
diff --git a/acoular/process.py b/acoular/process.py
index 1032f6f..d7d39f3 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -124,12 +124,12 @@ class Average(InOut):
 
     #: The sampling frequency of the output signal. It is set automatically as
     #: (:attr:`~acoular.base.Generator.sample_freq` ``/`` :attr:`num_per_average`).
-    sample_freq = Property(depends_on=['source.sample_freq', 'num_per_average'])
+    sample_freq = Property(depends_on=['source.sample_freq', 'source.digest', 'num_per_average'])
 
     #: The number of samples (time domain) or snapshots (frequency domain) of the output signal.
     #: It is set automatically as
     #: (:attr:`~acoular.base.Generator.num_samples` ``/`` :attr:`num_per_average`).
-    num_samples = Property(depends_on=['source.num_samples', 'num_per_average'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', 'num_per_average'])
 
     #: A unique identifier based on the class properties.
     digest = Property(depends_on=['source.digest', 'num_per_average'])
diff --git a/acoular/spectra.py b/acoular/spectra.py
index dc9c6bc..6955ffa 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -284,11 +284,11 @@ class PowerSpectra(BaseSpectra):
     #: The HDF5 cache file used for storing the results if :attr:`cached` is set to ``True``.
     h5f = Instance(H5CacheFileBase, transient=True)
 
-    @property_depends_on(['source.num_samples', 'block_size', 'overlap'])
+    @property_depends_on(['source.num_samples', 'source.digest', 'block_size', 'overlap'])
     def _get_num_blocks(self):
         return self.overlap_ * self.source.num_samples / self.block_size - self.overlap_ + 1
 
-    @property_depends_on(['source.sample_freq', 'block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', 'ind_low', 'ind_high'])
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -302,7 +302,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc'])
+    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_low', '_freqlc'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -311,7 +311,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc'])
+    @property_depends_on(['source.sample_freq', 'source.digest', 'block_size', '_ind_high', '_freqhc'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From e072eeb7775ba6163615a73cfd5332045e4d1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 33/80] fix: MicGeom.pos notices in-place changes of
 invalid_channels

---
 acoular/microphones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/microphones.py b/acoular/microphones.py
index d51ca00..bcb7b48 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -137,7 +137,7 @@ class MicGeom(HasStrictTraits):
 
     #: Array containing the ``x, y, z`` positions of valid microphones (i.e., excluding those in
     #: :attr:`invalid_channels`), shape ``(3,`` :attr:`num_mics` ``)``. (read-only)
-    pos = Property(depends_on=['pos_total', 'invalid_channels'], desc='x, y, z position of used microphones')
+    pos = Property(depends_on=['pos_total', 'invalid_channels[]'], desc='x, y, z position of used microphones')
 
     #: List of indices indicating microphones to be excluded from calculations and results.
     #: Default is ``[]``.
-- 
2.43.0


From b09c0eba7fad4db3328b4e9d7fde93c0853db0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 34/80] fix: GenericSignalGenerator.num_samples follows its
 source

---
 acoular/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/signals.py b/acoular/signals.py
index 9c04ec9..aacf3d2 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -603,7 +603,7 @@ class GenericSignalGenerator(SignalGenerator):
     #: The number of samples to generate. Default is the number of samples available in the
     #: :attr:`source` (``source.num_samples``). If set explicitly, it can exceed the source length,
     #: in which case the signal will loop if :attr:`loop_signal` is ``True``.
-    num_samples = Property()
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', '_num_samples'])
 
     def _get_num_samples(self):
         if self._num_samples:
-- 
2.43.0


From e6ea609e6b44f99b287bcfa944f3a8a1e13381eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 35/80] fix: digest of TimeSamples covers all data

---
 acoular/sources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 6ededb4..b853bf5 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -27,6 +27,7 @@ Measured multichannel data management and simulation of acoustic sources.
 # imports from other packages
 
 import contextlib
+from hashlib import md5
 from os import path
 from warnings import warn
 
@@ -36,6 +37,7 @@ from numpy import (
     arange,
     arctan2,
     array,
+    ascontiguousarray,
     ceil,
     complex128,
     cross,
@@ -43,6 +45,7 @@ from numpy import (
     empty,
     int64,
     mod,
+    ndarray,
     newaxis,
     ones,
     pi,
@@ -398,15 +401,18 @@ class TimeSamples(SamplesGenerator):
     #: Metadata loaded from the HDF5 file, if available.
     metadata = Dict(desc='metadata contained in .h5 file')
 
-    # Checksum over first data entries of all channels
-    _datachecksum = Property()
+    # Checksum over all data (file: over first data entries of all channels)
+    _datachecksum = Property(depends_on=['data'])
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
         depends_on=['basename', 'calib.digest', '_datachecksum', 'sample_freq', 'num_channels', 'num_samples']
     )
 
+    @cached_property
     def _get__datachecksum(self):
+        if isinstance(self.data, ndarray):
+            return md5(ascontiguousarray(self.data)).hexdigest()
         return self.data[0, :].sum()
 
     @cached_property
@@ -500,7 +506,6 @@ class TimeSamples(SamplesGenerator):
         if self.num_samples == 0:
             msg = 'no samples available'
             raise OSError(msg)
-        self._datachecksum  # trigger checksum calculation # noqa: B018
         i = 0
         if self.calib:
             warn(
@@ -726,7 +731,6 @@ class MaskedTimeSamples(TimeSamples):
         if i >= stop:
             msg = 'no samples available'
             raise OSError(msg)
-        self._datachecksum  # trigger checksum calculation # noqa: B018
         if self.calib:
             warn(
                 'The use of the calibration functionality in MaskedTimeSamples is deprecated and will be removed in \
-- 
2.43.0


From 388e992d67e84efb2fe8728d764f004604d5e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 36/80] fix: digest and channels of MaskedTimeSamples are
 complete

---
 acoular/sources.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index b853bf5..22c9eb2 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -596,7 +596,7 @@ class MaskedTimeSamples(TimeSamples):
 
     #: A mask or index array representing valid channels. Automatically updated based on the
     #: :attr:`invalid_channels` and :attr:`num_channels_total` attributes.
-    channels = Property(depends_on=['invalid_channels', 'num_channels_total'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'num_channels_total'], desc='channel mask')
 
     #: Total number of input channels, including invalid channels. (read-only).
     num_channels_total = CInt(0, desc='total number of input channels')
@@ -606,7 +606,7 @@ class MaskedTimeSamples(TimeSamples):
 
     #: Number of valid input channels after excluding :attr:`invalid_channels`. (read-only)
     num_channels = Property(
-        depends_on=['invalid_channels', 'num_channels_total'], desc='number of valid input channels'
+        depends_on=['invalid_channels[]', 'num_channels_total'], desc='number of valid input channels'
     )
 
     #: Number of valid time-domain samples, based on :attr:`start` and :attr:`stop` indices.
@@ -616,7 +616,19 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum'])
+    digest = Property(
+        depends_on=[
+            'basename',
+            'start',
+            'stop',
+            'calib.digest',
+            'invalid_channels[]',
+            '_datachecksum',
+            'sample_freq',
+            'num_channels_total',
+            'num_samples_total',
+        ]
+    )
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 25294e0729276bd79c95475eca4ebff79b814fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 37/80] fix: digest of SphericalHarmonicSource includes
 direction

---
 acoular/sources.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 22c9eb2..70187d6 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -999,6 +999,7 @@ class SphericalHarmonicSource(PointSource):
             'start_t',
             'start',
             'up',
+            'direction',
             'alpha',
             'lOrder',
             'prepadding',
-- 
2.43.0


From ec3af985d800355ad7bbee03a4f07266fe7d8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 38/80] fix: digest of MovingPointSource includes up

---
 acoular/sources.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 70187d6..1531f26 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1136,6 +1136,7 @@ class MovingPointSource(PointSource):
             'env.digest',
             'start_t',
             'start',
+            'up',
             'trajectory.digest',
             'prepadding',
         ],
-- 
2.43.0


From e5731900cc9414ff3ba03e52d62180ee07e9ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 39/80] fix: digest of MovingPointSourceDipole is complete

---
 acoular/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 1531f26..4d4c363 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1404,6 +1404,10 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             'start',
             'up',
             'direction',
+            'rvec',
+            'trajectory.digest',
+            'conv_amp',
+            'prepadding',
         ],
     )
 
-- 
2.43.0


From 79b15b5b22e2e046a8b14dc2ead89d436d2f250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 40/80] fix: digests of LineSource and MovingLineSource are
 complete

---
 acoular/sources.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 4d4c363..e056864 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1654,6 +1654,8 @@ class LineSource(PointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
             'source_strength',
             'coherence',
         ],
@@ -1780,6 +1782,13 @@ class MovingLineSource(LineSource, MovingPointSource):
             'start',
             'up',
             'direction',
+            'rvec',
+            'length',
+            'num_sources',
+            'source_strength',
+            'coherence',
+            'trajectory.digest',
+            'conv_amp',
         ],
     )
 
-- 
2.43.0


From ab087ba138e8417618b4143ff0f0191c3d1ad3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 41/80] fix: cross spectral matrix has the precision asked for
 without caching

---
 acoular/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 6955ffa..5d29b7e 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -398,7 +398,7 @@ class PowerSpectra(BaseSpectra):
         [fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
         csm = csm_lower + csm_upper
         # onesided spectrum: multiplication by 2.0=sqrt(2)^2
-        return csm * (2.0 / self.block_size / weight / self.num_blocks)
+        return (csm * (2.0 / self.block_size / weight / self.num_blocks)).astype(self.precision)
 
     def calc_ev(self):
         """
-- 
2.43.0


From 768adb896d53b3e32e680e145bedd2d36a1e9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 42/80] fix: PowerSpectraImport digest identifies the imported
 matrix and its frequencies

---
 acoular/spectra.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 5d29b7e..609b345 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -12,11 +12,13 @@
 """
 
 from abc import abstractmethod
+from hashlib import md5
 from warnings import warn
 
 from numpy import (
     arange,
     array,
+    ascontiguousarray,
     bartlett,
     blackman,
     dot,
@@ -24,12 +26,10 @@ from numpy import (
     fill_diagonal,
     hamming,
     hanning,
-    imag,
     linalg,
     ndarray,
     newaxis,
     ones,
-    real,
     searchsorted,
     sum,  # noqa A004
     zeros,
@@ -46,6 +46,7 @@ from traits.api import (
     Int,
     Map,
     Property,
+    Str,
     Union,
     cached_property,
     property_depends_on,
@@ -673,7 +674,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum'])
+    digest = Property(depends_on=['_csmsum', 'frequencies'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
@@ -682,7 +683,7 @@ class PowerSpectraImport(PowerSpectra):
     _csm = CArray()
 
     # Checksum for the CSM to trigger digest calculation, for internal use only.
-    _csmsum = Float()
+    _csmsum = Str()
 
     def _get_basename(self):
         return 'csm_import_' + self.digest
@@ -702,8 +703,8 @@ class PowerSpectraImport(PowerSpectra):
             msg = 'The cross spectral matrix must have the following shape: \
             (number of frequencies, num_channels, num_channels)!'
             raise ValueError(msg)
-        self._csmsum = real(self._csm).sum() + (imag(self._csm) ** 2).sum()  # to trigger new digest creation
         self._csm = csm
+        self._csmsum = md5(ascontiguousarray(self._csm)).hexdigest()  # to trigger new digest creation
 
     @property_depends_on(['digest'])
     def _get_eva(self):
-- 
2.43.0


From cc8fded8ff4fe0637e82e494fcc06429082a5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 43/80] fix: trajectory beamformers deliver the last samples
 for any block size

---
 acoular/tbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 577517d..c06f29d 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -420,8 +420,8 @@ class BeamformerTimeTraj(BeamformerTime):
             else:
                 steer_func(blockrm, blockr0, amp)
             _delays(blockrm, c, d_interp2, d_index)
-            max_sample_delay = (d_index.max((1, 2)) + 2).max()  # + because of interpolation
-            buffer.result_num = num + max_sample_delay
+            # number of samples needed for this block, + 2 because of interpolation
+            buffer.result_num = (d_index.max((1, 2)) + 2 + arange(num)).max()
 
             try:
                 time_block = next(buffered_result).copy()  # the overlap is still needed in the buffer
-- 
2.43.0


From 9e2f8dfd7b52dc921b4f6080944e3c7cde48396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 44/80] fix: MaskedTimeOut notices in-place changes and an
 exchanged source

---
 acoular/tprocess.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 0ab2c0e..b29e3da 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -138,7 +138,7 @@ class MaskedTimeOut(TimeOut):
     invalid_channels = List(int, desc='list of invalid channels')
 
     # Channel mask to serve as an index for all valid channels, is set automatically.
-    channels = Property(depends_on=['invalid_channels', 'source.num_channels'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'source.num_channels', 'source.digest'], desc='channel mask')
 
     # Number of channels in input, as given by :attr:`~acoular.base.TimeOut.source`.
     num_channels_total = Delegate('source', 'num_channels')
@@ -148,19 +148,19 @@ class MaskedTimeOut(TimeOut):
 
     # Number of valid channels, is set automatically.
     num_channels = Property(
-        depends_on=['invalid_channels', 'source.num_channels'], desc='number of valid input channels'
+        depends_on=['invalid_channels[]', 'source.num_channels', 'source.digest'], desc='number of valid input channels'
     )
 
     # Number of valid time samples, is set automatically.
     num_samples = Property(
-        depends_on=['start', 'stop', 'source.num_samples'], desc='number of valid samples per channel'
+        depends_on=['start', 'stop', 'source.num_samples', 'source.digest'], desc='number of valid samples per channel'
     )
 
     # Name of the cache file without extension, readonly.
     basename = Property(depends_on=['source.digest'], desc='basename for cache file')
 
     # internal identifier
-    digest = Property(depends_on=['source.digest', 'start', 'stop', 'invalid_channels'])
+    digest = Property(depends_on=['source.digest', 'start', 'stop', 'invalid_channels[]'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From f71ffb55f010c7ee8e110f3471ae478c54ad91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 45/80] fix: SpatialInterpolator follows changes of
 microphones, interpolation method and weighting

---
 acoular/tprocess.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index b29e3da..d964706 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -673,14 +673,12 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     mics = Instance(MicGeom(), desc='microphone geometry')
 
     # :class:`~acoular.microphones.MicGeom` object that provides the virtual microphone locations.
-    mics_virtual = Property(desc='microphone geometry')
+    mics_virtual = Property(depends_on=['mics', '_mics_virtual'], desc='microphone geometry')
 
     _mics_virtual = Instance(MicGeom, desc='internal microphone geometry;internal usage, read only')
 
     def _get_mics_virtual(self):
-        if not self._mics_virtual and self.mics:
-            self._mics_virtual = self.mics
-        return self._mics_virtual
+        return self._mics_virtual or self.mics
 
     def _set_mics_virtual(self, mics_virtual):
         self._mics_virtual = mics_virtual
@@ -731,8 +729,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     )
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
-    _virtNewCoord_func = Property(  # noqa: N815
-        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero'],
+    virtNewCoord = Property(  # noqa: N815
+        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'Q', 'interp_at_zero'],
     )
 
     # internal identifier
@@ -745,6 +743,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -935,7 +935,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         # number of virtual mixcs
         nVirtMics = self.mics_virtual.mpos.shape[1]
         # mesh and projection onto polar Coordinates
-        meshList, virtNewCoord, newCoord = self._get_virtNewCoord()
+        meshList, virtNewCoord, newCoord = self.virtNewCoord
         # pressure interpolation init
         pInterp = zeros((nTime, nVirtMics))
         # Coordinates in cartesian CO - for IDW interpolation
@@ -1175,6 +1175,8 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1230,6 +1232,8 @@ class SpatialInterpolatorConstantRotation(SpatialInterpolator):  # pragma: no co
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
             'rotational_speed',
         ],
     )
-- 
2.43.0


From 3381ff7af7abd8c2b23aab8e3cd4987561d02756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 46/80] fix: filters of OctaveFilterBank follow changes of the
 configuration

---
 acoular/tprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index d964706..8f946c2 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1743,7 +1743,7 @@ class OctaveFilterBank(FilterBank):
     fraction = Map({'Octave': 1, 'Third octave': 3}, default_value='Octave', desc='fraction of octave')
 
     # List of filter coefficients for all filters
-    ba = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
+    sos = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
 
     # List of labels for bands
     bands = Property(depends_on=['lband', 'hband', 'fraction'])
@@ -1752,7 +1752,7 @@ class OctaveFilterBank(FilterBank):
     num_bands = Property(depends_on=['lband', 'hband', 'fraction'])
 
     # internal identifier
-    digest = Property(depends_on=['source.digest', 'lband', 'hband', 'fraction', 'order'])
+    digest = Property(depends_on=['source.digest', 'lband', 'hband', 'fraction'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 215cc41d27754876f52036fa4c7f92ce9b42f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 47/80] fix: WriteWAV notices in-place changes of channels

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 8f946c2..63b7c04 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1797,7 +1797,7 @@ class WriteWAV(TimeOut):
     channels = List(int, desc='channel to save')
 
     # internal identifier
-    digest = Property(depends_on=['source.digest', 'channels'])
+    digest = Property(depends_on=['source.digest', 'channels[]'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From c189015bf1a716a2ecb5c735cb228a5cacaf99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 48/80] fix: TimeConvolve does not reshape the kernel of the
 user and follows an exchanged source

---
 acoular/tprocess.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 63b7c04..e4eee68 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1981,7 +1981,7 @@ class TimeConvolve(TimeOut):
     kernel = CArray(dtype=float, desc='Convolution kernel.')
 
     # Number of samples of the convolved signal.
-    num_samples = Property(depends_on=['source.num_samples', 'kernel'])
+    num_samples = Property(depends_on=['source.num_samples', 'source.digest', 'kernel'])
 
     _block_size = Int(desc='Block size')
 
@@ -2005,9 +2005,8 @@ class TimeConvolve(TimeOut):
         return M + max(self.kernel.shape[0], 1) - 1 if M > 0 else M
 
     def _validate_kernel(self):
-        # reshape kernel for broadcasting
+        # a one dimensional kernel applies to all channels
         if self.kernel.ndim == 1:
-            self.kernel = self.kernel.reshape([-1, 1])
             return
         # check dimensionality
         if self.kernel.ndim > 2:
@@ -2021,18 +2020,20 @@ class TimeConvolve(TimeOut):
     # compute the rfft of the kernel blockwise
     @cached_property
     def _get__kernel_blocks(self):
-        [L, N] = self.kernel.shape
+        # reshape kernel for broadcasting
+        kernel = self.kernel.reshape([-1, 1]) if self.kernel.ndim == 1 else self.kernel
+        [L, N] = kernel.shape
         num = self._block_size
         P = int(ceil(L / num))
         trim = num * (P - 1)
         blocks = zeros([P, num + 1, N], dtype='complex128')
 
         if P > 1:
-            for i, block in enumerate(split(self.kernel[:trim], P - 1, axis=0)):
+            for i, block in enumerate(split(kernel[:trim], P - 1, axis=0)):
                 blocks[i] = rfft(concatenate([block, zeros([num, N])], axis=0), axis=0)
 
         blocks[-1] = rfft(
-            concatenate([self.kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
+            concatenate([kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
             axis=0,
         )
         return blocks
-- 
2.43.0


From 6c18b9fe999bb7552d2b40edb64090231b4f7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:18 +0000
Subject: [PATCH 49/80] fix: several concurrent passes over a Cache object that
 is not filled yet

---
 acoular/process.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index d7d39f3..1d6ffab 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -347,12 +347,15 @@ class Cache(InOut):
           from the source to update the cache unless the caching mode is ``'readonly'``.
         - The cache node name is based on the source's :attr:`digest` attribute.
         """
+        writing = set()  # nodes of the cache file that are being written
         if config.global_caching == 'none':
             generator = self._pass_data
         else:
             nodename = 'tc_' + self.digest
             H5cache.get_cache_file(self, self.basename)
-            if not self.h5f:
+            if self.h5f:
+                writing = vars(self.h5f).setdefault('_nodes_being_written', writing)
+            if not self.h5f or nodename in writing:
                 generator = self._pass_data
             elif self.h5f.is_cached(nodename):
                 generator = self._get_data_from_cache
@@ -379,7 +382,15 @@ class Cache(InOut):
                 generator = self._write_data_to_cache
                 if config.global_caching == 'readonly':
                     generator = self._pass_data
-        yield from generator(num)
+        if generator in (self._write_data_to_cache, self._get_data_from_incomplete_cache):
+            # other generators that run at the same time get their data from the source
+            writing.add(nodename)
+            try:
+                yield from generator(num)
+            finally:
+                writing.discard(nodename)
+        else:
+            yield from generator(num)
 
 
 class SampleSplitter(InOut):
-- 
2.43.0


From 20f1ef395b8ac9c2035a7c414964166a5a66b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 50/80] fix: several threads that use one entry of a cache file
 at the same time

---
 acoular/fbeamform.py |  6 ++++--
 acoular/h5cache.py   |  6 +++---
 acoular/process.py   | 30 ++++++++++++++++++------------
 acoular/spectra.py   | 39 +++++++++++++++++++++++----------------
 4 files changed, 48 insertions(+), 33 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 94cf350..5eff382 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -438,7 +438,8 @@ class BeamformerBase(HasStrictTraits):
         if not (  # if result caching is active
             config.global_caching == 'none' or (config.global_caching == 'individual' and not self.cached)
         ):
-            (ac, fr, gpos) = self._get_filecache()  # can also be (None, None, None)
+            with H5cache.lock:
+                (ac, fr, gpos) = self._get_filecache()  # can also be (None, None, None)
             if gpos:  # we have an adaptive grid
                 self._gpos = gpos
         if ac and fr:  # cached data is available
@@ -1078,7 +1079,8 @@ class PointSpreadFunction(HasStrictTraits):
 
         if config.global_caching != 'none':
             #            print("get filecache..")
-            (ac, gp) = self._get_filecache()
+            with H5cache.lock:
+                (ac, gp) = self._get_filecache()
             if ac and gp:
                 #                print("cached data existent")
                 if not gp[:][self._calc_indices()].all():
diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index 9d63c73..2a44ae3 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -21,8 +21,8 @@ class HDF5Cache(HasStrictTraits):
 
     cache_dir = Delegate('config')
 
-    # Only one thread at a time opens and closes cache files.
-    _lock = Any(factory=RLock)
+    # Only one thread at a time opens and closes cache files and creates or removes their entries.
+    lock = Any(factory=RLock)
 
     open_files = WeakValueDictionary()
 
@@ -87,7 +87,7 @@ class HDF5Cache(HasStrictTraits):
 
     def get_cache_file(self, obj, basename, mode='a'):
         """Returns pytables .h5 file to h5f trait of calling object for caching."""
-        with self._lock:
+        with self.lock:
             self._get_cache_file(obj, basename, mode)
 
     def _get_cache_file(self, obj, basename, mode):
diff --git a/acoular/process.py b/acoular/process.py
index 1d6ffab..427cb44 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -347,14 +347,25 @@ class Cache(InOut):
           from the source to update the cache unless the caching mode is ``'readonly'``.
         - The cache node name is based on the source's :attr:`digest` attribute.
         """
-        writing = set()  # nodes of the cache file that are being written
         if config.global_caching == 'none':
             generator = self._pass_data
         else:
+            generator, nodename, writing = self._select_generator()
+        if generator in (self._write_data_to_cache, self._get_data_from_incomplete_cache):
+            try:
+                yield from generator(num)
+            finally:
+                writing.discard(nodename)
+        else:
+            yield from generator(num)
+
+    def _select_generator(self):
+        # Decides where the data comes from. Only one thread at a time may look at the cache file.
+        with H5cache.lock:
             nodename = 'tc_' + self.digest
             H5cache.get_cache_file(self, self.basename)
-            if self.h5f:
-                writing = vars(self.h5f).setdefault('_nodes_being_written', writing)
+            # nodes that are being written by another generator
+            writing = vars(self.h5f).setdefault('_nodes_being_written', set()) if self.h5f else set()
             if not self.h5f or nodename in writing:
                 generator = self._pass_data
             elif self.h5f.is_cached(nodename):
@@ -382,15 +393,10 @@ class Cache(InOut):
                 generator = self._write_data_to_cache
                 if config.global_caching == 'readonly':
                     generator = self._pass_data
-        if generator in (self._write_data_to_cache, self._get_data_from_incomplete_cache):
-            # other generators that run at the same time get their data from the source
-            writing.add(nodename)
-            try:
-                yield from generator(num)
-            finally:
-                writing.discard(nodename)
-        else:
-            yield from generator(num)
+            if generator in (self._write_data_to_cache, self._get_data_from_incomplete_cache):
+                # other generators that run at the same time get their data from the source
+                writing.add(nodename)
+        return generator, nodename, writing
 
 
 class SampleSplitter(InOut):
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 609b345..08c54ee 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -510,23 +510,11 @@ class PowerSpectra(BaseSpectra):
             shape = self.csm.shape
             precision = self.precision
 
-        H5cache.get_cache_file(self, self.basename)
-        if not self.h5f:  # in case of global caching readonly
-            return func()
-
         nodename = traitname + '_' + self.digest
-        if config.global_caching == 'overwrite' and self.h5f.is_cached(nodename):
-            # print("remove existing node",nodename)
-            self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
-
-        if not self.h5f.is_cached(nodename):
-            if config.global_caching == 'readonly':
-                return func()
-            #            print("create array, data not cached for",nodename)
-            self.h5f.create_compressible_array(nodename, shape, precision)
-            self.h5f.set_node_attribute(self.h5f.get_data_by_reference(nodename), 'complete', 0)
-
-        ac = self.h5f.get_data_by_reference(nodename)
+        with H5cache.lock:  # only one thread at a time may look for the node and create it
+            ac = self._get_cached_node(nodename, shape, precision)
+        if ac is None:  # in case of global caching readonly
+            return func()
         try:
             complete = bool(self.h5f.get_node_attribute(ac, 'complete'))
         except (AttributeError, KeyError):  # file was written without this attribute
@@ -541,6 +529,25 @@ class PowerSpectra(BaseSpectra):
             self.h5f.flush()
         return ac
 
+    def _get_cached_node(self, nodename, shape, precision):
+        # Returns the (possibly new) node of the cache file or None if there is none to be used.
+        H5cache.get_cache_file(self, self.basename)
+        if not self.h5f:  # in case of global caching readonly
+            return None
+
+        if config.global_caching == 'overwrite' and self.h5f.is_cached(nodename):
+            # print("remove existing node",nodename)
+            self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
+
+        if not self.h5f.is_cached(nodename):
+            if config.global_caching == 'readonly':
+                return None
+            #            print("create array, data not cached for",nodename)
+            self.h5f.create_compressible_array(nodename, shape, precision)
+            self.h5f.set_node_attribute(self.h5f.get_data_by_reference(nodename), 'complete', 0)
+
+        return self.h5f.get_data_by_reference(nodename)
+
     @property_depends_on(['digest'])
     def _get_csm(self):
         if config.global_caching == 'none' or (config.global_caching == 'individual' and self.cached is False):
-- 
2.43.0


From 47dc271515d0380ec6283f1032e769f11cfd0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 51/80] fix: metadata of recordings written with PyTables and
 read with h5py

---
 acoular/h5files.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/h5files.py b/acoular/h5files.py
index 7b81561..2be9878 100644
--- a/acoular/h5files.py
+++ b/acoular/h5files.py
@@ -174,6 +174,9 @@ if config.have_h5py:
             node = self[nodename]
             # initialize node-dict with node's own attributes
             result = {attr: node.attrs[attr] for attr in node.attrs}
+            if result.get('CLASS') == b'GROUP':  # written with PyTables, which describes its groups with attributes
+                for attr in ('CLASS', 'TITLE', 'VERSION'):
+                    result.pop(attr, None)
             if isinstance(node, h5py.Group):
                 # if node is a group, recursively add its children
                 for childname in node:
-- 
2.43.0


From e6cb1f110b8b60344c84fd037379479cd307e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 52/80] fix: running of SoundDeviceSamplesGenerator ends with
 an abandoned or failed recording

---
 acoular/sdinput.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index 005ff10..8b50249 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -9,6 +9,8 @@
     SoundDeviceSamplesGenerator
 """
 
+import contextlib
+
 from traits.api import Any, Bool, Enum, Float, Int, Property, cached_property, observe
 
 # acoular imports
@@ -118,7 +120,8 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
             dtype=self.precision,
         )
 
-        with stream_obj as stream:
+        with contextlib.ExitStack() as stack, stream_obj as stream:
+            stack.callback(self.trait_set, running=False)  # also if the recording is abandoned or fails
             self.running = True
             if self.num_samples == -1:
                 while self.collect_samples:  # yield data as long as collect_samples is True
-- 
2.43.0


From 42745c79e84b0974612f58ec3edb74dfc9cee055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 53/80] fix: WriteWAV with integer signals and with empty or
 silent signals

---
 acoular/tprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e4eee68..e7f0784 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1838,8 +1838,8 @@ class WriteWAV(TimeOut):
             mx = 0.0
             ind = array(self.channels)
             for data in self.source.result(1024):
-                mx = max(abs(data[:, ind]).max(), mx)
-            scale = 0.9 * 2**15 / mx
+                mx = max(abs(data[:, ind].astype(float64)).max(), mx)
+            scale = 0.9 * 2**15 / mx if mx > 0 else 0.0
             for data in self.source.result(1024):
                 wf.writeframesraw(array(data[:, ind] * scale, dtype=int16).tostring())
 
-- 
2.43.0


From 3f19c73d50b2dd596db033d0ff84b7a99ac82e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 54/80] fix: automatic names of recordings do not overwrite
 earlier ones

---
 acoular/tprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e7f0784..9754416 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1884,6 +1884,10 @@ class WriteH5(TimeOut):
     def create_filename(self):
         if self.file == '':
             name = datetime.now(tz=timezone.utc).isoformat('_').replace(':', '-').replace('.', '_')
+            stem, count = name, 0
+            while path.exists(path.join(config.td_dir, name + '.h5')):  # the clock may be too coarse
+                count += 1
+                name = f'{stem}_{count}'
             self.file = path.join(config.td_dir, name + '.h5')
 
     def get_initialized_file(self):
-- 
2.43.0


From b70747bba48dcf45e3adaecd716fd26174a8f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 55/80] fix: text metadata of recordings with other than ASCII
 characters

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 9754416..808cbf2 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1921,7 +1921,7 @@ class WriteH5(TimeOut):
             f5h.create_new_group('metadata', '/')
             for key, value in self.metadata.items():
                 if isinstance(value, str):
-                    value = array(value, dtype='S')
+                    value = array(value.encode('utf-8'), dtype='S')
                 f5h.create_array('/metadata', key, value)
 
     def result(self, num):
-- 
2.43.0


From f048f41969296f1a494d8fe57f6256ecac7a40d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 56/80] fix: last frequency requested as result[-1] is
 calculated

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 5eff382..8ca4567 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -293,7 +293,7 @@ class LazyBfResult:
         # 'intelligent' [] operator checks if results are available and triggers calculation
         sl = index_exp[key][0]
         if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1)
+            sl = slice(sl, sl + 1 or None)  # the last entry (-1) is not followed by entry 0
         # indices which are missing
         missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
         # calc if needed
-- 
2.43.0


From 7956de834957e1113ee5753e0d5554bd26a2ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 57/80] fix: results kept by the user follow changed settings
 instead of mixing both

---
 acoular/fbeamform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 8ca4567..49ec81e 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -291,6 +291,7 @@ class LazyBfResult:
 
     def __getitem__(self, key):
         # 'intelligent' [] operator checks if results are available and triggers calculation
+        _ = self.bf.result  # new arrays (and cache entries) belong to settings changed in the meantime
         sl = index_exp[key][0]
         if isinstance(sl, (int, integer)):
             sl = slice(sl, sl + 1 or None)  # the last entry (-1) is not followed by entry 0
-- 
2.43.0


From c9afa2879e2580c20fbbfd7bcc3e4204b8bbcff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 58/80] fix: integrate before any result was requested or after
 changes

---
 acoular/fbeamform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 49ec81e..46d16a1 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -674,6 +674,7 @@ class BeamformerBase(HasStrictTraits):
                 msg,
             )
         gshape = self.steer.grid.shape
+        _ = self.result  # provides frequencies for the current settings
         if num == 0 or frange is None:
             if frange is None:
                 ind_low = self.freq_data.ind_low
-- 
2.43.0


From db155bedc4ee36e68dd2a37007b538956dd40b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 59/80] fix: integrate of beamformers with adaptive grid

---
 acoular/fbeamform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 46d16a1..a40875c 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2360,10 +2360,12 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
                 msg,
             )
 
-        ind = self.subdomain(sector)
         r = self.result
-        h = zeros(r.shape[0])
-        for i in range(r.shape[0]):
+        for i in self.freq_data.indices:
+            r[i]  # positions are known only for calculated frequencies
+        ind = self.subdomain(sector)
+        h = zeros(self._numfreq)
+        for i in self.freq_data.indices:
             h[i] = r[i][ind].sum()
         return h
 
-- 
2.43.0


From ccd39d1bc25ee2c3c887812995c9f0f757bf6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 60/80] fix: maps handed out by result and synthetic are not
 the stored results

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a40875c..361539e 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -303,7 +303,7 @@ class LazyBfResult:
             if self.bf.h5f:
                 self.bf.h5f.flush()
 
-        return self.bf._ac.__getitem__(key)
+        return self.bf._ac.__getitem__(key).copy()  # what the user does with it has no effect on stored results
 
 
 class BeamformerBase(HasStrictTraits):
-- 
2.43.0


From a7313b6fa51392fe883f7a4a970b9dfb926efbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 61/80] fix: moving focus beamformers with a trajectory that
 ends before the last block

---
 acoular/tbeamform.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index c06f29d..98eab39 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -408,20 +408,28 @@ class BeamformerTimeTraj(BeamformerTime):
         buffered_result = buffer.result(num)
         while flag:
             for i in range(num):
-                tpos = next(movgpos).astype(fdtype)
+                tpos = next(movgpos, None)
+                if tpos is None:  # end of trajectory: only the samples so far have a position
+                    num = i
+                    n_index = arange(num, dtype=idtype)[:, newaxis]
+                    flag = False
+                    break
+                tpos = tpos.astype(fdtype)
                 rm = self.steer.env._r(tpos, mpos)  # .astype(fdtype)
                 blockr0[i, :] = self.get_r0(tpos)
                 blockrm[i, :, :] = rm
                 if self.conv_amp:
                     ht = next(movgspeed)
                     blockrmconv[i, :, :] = rm * (1 - self._get_macostheta(ht, tpos, rm)) ** 2
+            if num == 0:
+                break
             if self.conv_amp:
                 steer_func(blockrmconv, blockr0, amp)
             else:
                 steer_func(blockrm, blockr0, amp)
             _delays(blockrm, c, d_interp2, d_index)
             # number of samples needed for this block, + 2 because of interpolation
-            buffer.result_num = (d_index.max((1, 2)) + 2 + arange(num)).max()
+            buffer.result_num = (d_index[:num].max((1, 2)) + 2 + arange(num)).max()
 
             try:
                 time_block = next(buffered_result).copy()  # the overlap is still needed in the buffer
@@ -429,7 +437,7 @@ class BeamformerTimeTraj(BeamformerTime):
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
-                num = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
+                num = sum((d_index[:num].max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
                 if num == 0:  # remaining samples are not sufficient
                     break
                 n_index = arange(num, dtype=idtype)[:, newaxis]
-- 
2.43.0


From 7ae161f90d2934f66860f4646fed068e24cb58f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 62/80] fix: convective amplification of a source that stands
 still

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 98eab39..691a6c4 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -345,7 +345,7 @@ class BeamformerTimeTraj(BeamformerTime):
     def _get_macostheta(self, g1, tpos, rm):
         vvec = array(g1)  # velocity vector
         ma = norm(vvec) / self.steer.env.c  # machnumber
-        fdv = (vvec / sqrt((vvec * vvec).sum()))[:, newaxis]  # unit vecor velocity
+        fdv = (vvec / (sqrt((vvec * vvec).sum()) or 1.0))[:, newaxis]  # unit vecor velocity
         mpos = self.steer.mics.pos[:, newaxis, :]
         rmv = tpos[:, :, newaxis] - mpos
         return (ma * sum(rmv.reshape((3, -1)) * fdv, 0) / rm.reshape(-1)).reshape(rm.shape)
-- 
2.43.0


From 0e0125defa2822521f2a473487a01bbdd9ae7910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 63/80] fix: an object that starts again at a sample splitter
 gets the complete stream

---
 acoular/process.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 427cb44..20423f7 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -625,6 +625,7 @@ class SampleSplitter(InOut):
                 if obj not in self.block_buffer:
                     self._create_block_buffer(obj, buffer_size)
                     self._create_buffer_overflow_treatment(obj, buffer_overflow_treatment)
+                    self._waiting_objs = [*self._waiting_objs, obj]
                 else:
                     msg = f'object {obj} is already registered.'
                     raise OSError(msg)
@@ -661,6 +662,7 @@ class SampleSplitter(InOut):
             for obj in objects_to_remove:
                 self._remove_block_buffer(obj)
                 self._remove_buffer_overflow_treatment(obj)
+                self._waiting_objs = [o for o in self._waiting_objs if o is not obj]
 
     def result(self, num):
         """
@@ -701,8 +703,9 @@ class SampleSplitter(InOut):
         self._assert_obj_registered(calling_obj)
 
         with self._lock:
-            # an object that did not start yet joins the others as long as they are still reading
-            joins = self._source_generator_exist or (calling_obj in self._waiting_objs and self._reading_objs)
+            # an object that did not start yet joins the others as long as they are still reading,
+            # one that took part already starts again
+            joins = calling_obj in self._waiting_objs and (self._source_generator_exist or self._reading_objs)
             if not joins:
                 self._create_source_generator(num)
             if calling_obj in self._waiting_objs:
-- 
2.43.0


From 08e787d8cbe66c6e0a9deac90f1be8a118a7db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 64/80] fix: errors while calculating a digest are not
 swallowed

---
 acoular/internal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index e4e6bef..c4bf49e 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -36,7 +36,9 @@ def digest(obj, name='digest'):
             for i in do_.split('.'):
                 vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
             str_.append(_content(vobj))
-        except:  # noqa: E722
+        except (OSError, MemoryError):  # the digest would not identify the object
+            raise
+        except Exception:  # noqa: BLE001 (incomplete configuration)
             str_.append(b'')
     # the length of each part keeps adjacent values apart
     return '_' + md5(b''.join(b'%d:%b' % (len(s), s) for s in str_)).hexdigest()
-- 
2.43.0


From b550198221841fcab31eccb4678a897551028b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 65/80] fix: BeamformerGIB with frequencies that have no
 positive eigenvalue

---
 acoular/fbeamform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 361539e..200eecc 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2218,6 +2218,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
             eva[eva < max(eva) / 1e12] = 0
             # init sources
             qi = zeros([n + m, num_points], dtype='complex128')
+            locpoints = arange(num_points)
             # Select the number of coherent modes to be processed referring to the eigenvalue
             # distribution.
             for s in list(range(m, n + m)):
-- 
2.43.0


From 4ee81f8a0ebd1e5bb436096f162dae1f25559af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 66/80] fix: synthetic outside of the resolved frequencies does
 not calculate the first line

---
 acoular/fbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 200eecc..fc03eaa 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -578,7 +578,7 @@ class BeamformerBase(HasStrictTraits):
                     Warning,
                     stacklevel=2,
                 )
-                h = zeros_like(res[0])
+                h = zeros_like(self._ac[0])
             else:
                 if freq[ind] != f:
                     warn(
@@ -607,7 +607,7 @@ class BeamformerBase(HasStrictTraits):
                     Warning,
                     stacklevel=2,
                 )
-                h = zeros_like(res[0])
+                h = zeros_like(self._ac[0])
             else:
                 h = sum(res[ind1:ind2], 0)
         if isinstance(self, BeamformerAdaptiveGrid):
-- 
2.43.0


From f7ae528ac8ea80427b46bbe697f929369c10839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:07 +0000
Subject: [PATCH 67/80] fix: number of samples of an empty selection is not
 negative

---
 acoular/sources.py  | 2 +-
 acoular/tprocess.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index e056864..5012bb7 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -650,7 +650,7 @@ class MaskedTimeSamples(TimeSamples):
     @cached_property
     def _get_num_samples(self):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
-        return sli[1] - sli[0]
+        return max(sli[1] - sli[0], 0)
 
     @on_trait_change('basename')
     def _load_data(self):
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 808cbf2..e1b56d3 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -194,7 +194,7 @@ class MaskedTimeOut(TimeOut):
     @cached_property
     def _get_num_samples(self):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
-        return sli[1] - sli[0]
+        return max(sli[1] - sli[0], 0)
 
     def result(self, num):
         """Python generator that yields the output block-wise.
-- 
2.43.0


From 334388c3126a82cebbf374401e01b57b9fad3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 68/80] fix: angle and speed with several triggers per
 revolution or changing speed

---
 acoular/tprocess.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e1b56d3..0d5df6d 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -593,29 +593,16 @@ class AngleTracker(MaskedTimeOut):
 
         # loop over all timesamples
         while ind < num:
-            # when starting spline forward
-            if ind < peakloc[InterpPoints]:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) + 1]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist : ind // peakdist + InterpPoints]),
-                    axis=0,
-                )
-            # spline backwards
-            else:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) - 1]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist - InterpPoints : ind // peakdist]),
-                    axis=0,
-                )
+            # spline through the triggers around this sample
+            first = self._find_nearest_idx(peakarray=peakloc, value=ind) - InterpPoints // 2
+            first = max(min(first, len(peakloc) - InterpPoints), 0)
+            splineData = stack(
+                (range(first, first + InterpPoints), peakloc[first : first + InterpPoints]),
+                axis=0,
+            )
             # calc angles and rpm
             Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
-            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
+            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate / TriggerPerRevo
             self._angle[ind] = (
                 splev(ind, Spline, der=0, ext=0) * 2 * pi * rotDirection / TriggerPerRevo + self.start_angle
             ) % (2 * pi)
-- 
2.43.0


From ab5e81b56a0a7a576837fa050f0e646ac344cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 69/80] fix: threshold of Trigger is derived from the mean of
 all samples

---
 acoular/tprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 0d5df6d..e2bb265 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -479,8 +479,8 @@ class Trigger(TimeOut):  # pragma: no cover
             for trigger_data in self.source.result(num):
                 maxVal = max(maxVal, trigger_data.max())
                 minVal = min(minVal, trigger_data.min())
-                meanVal += trigger_data.mean()
-                cntMean += 1
+                meanVal += trigger_data.sum()
+                cntMean += trigger_data.size
             meanVal /= cntMean
 
             # get 75% of maximum absolute value of trigger signal
-- 
2.43.0


From 44bcf8856a2c4e6ad33a5a7848ee9fd7cfb9b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 70/80] fix: edge of rectangular triggers in the first block

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e2bb265..bf70f28 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -461,7 +461,7 @@ class Trigger(TimeOut):  # pragma: no cover
 
     def _trigger_rect(self, x0, x, threshold):
         # x0 stores the last value of the the last generator cycle
-        xNew = append(x0, x)
+        xNew = append(x0 if len(x0) else x[0], x)  # there is no edge at the first sample
         # indPeakHunk = abs(xNew[1:] - xNew[:-1]) > abs(threshold)
         # with above line, every edge would be located
         return self._trigger_value_comp(xNew[1:] - xNew[:-1], threshold)
-- 
2.43.0


From 001d1ffd4490ccf0701834e5fae2111b5fdcbb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 71/80] fix: Trigger warns about sources without start

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index bf70f28..6c2133c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -449,7 +449,7 @@ class Trigger(TimeOut):  # pragma: no cover
         if faultyInd.size != 0:
             warn(
                 f'In Trigger-Identification: The distances between the peaks (and therefore the lengths of the \
-                revolutions) vary too much (check samples {peakLoc[faultyInd] + self.source.start}).',
+                revolutions) vary too much (check samples {peakLoc[faultyInd] + getattr(self.source, 'start', 0)}).',
                 Warning,
                 stacklevel=2,
             )
-- 
2.43.0


From 2c2fc4de452a10ef35f221a6fd23bc71e0609501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 72/80] fix: Trigger keeps a copy of the last sample of a block

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 6c2133c..4da60d9 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -416,7 +416,7 @@ class Trigger(TimeOut):  # pragma: no cover
                 peakLoc = append(peakLoc, localTrigger + dSamples)
                 trigger_data = append(trigger_data, triggerSignal[localTrigger])
             dSamples += num
-            x0 = triggerSignal[-1]
+            x0 = triggerSignal[-1].copy()  # the block belongs to the source
         if len(peakLoc) <= 1:
             msg = 'Not enough trigger info. Check *threshold* sign and value!'
             raise Exception(msg)
-- 
2.43.0


From 99c587b49b322156be48c8da55f306830f5c56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 73/80] fix: MaskedTimeOut delivers the rest of a source that
 ends early

---
 acoular/tprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 4da60d9..eade136 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -252,6 +252,9 @@ class MaskedTimeOut(TimeOut):
                     yield buf[:num]
                     buf[: bsize - num, :] = buf[num:bsize, :]
                     bsize -= num
+            else:  # the source delivered fewer samples than announced
+                if bsize > 0:
+                    yield buf[:bsize, :]
 
         else:  # if no start/stop given, don't do the resorting thing
             for block in self.source.result(num):
-- 
2.43.0


From 0573f59ff889923ef4c8a28eb4494093c831ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 74/80] fix: number of samples of block averages is an integer

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 20423f7..3988ad4 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -147,7 +147,7 @@ class Average(InOut):
     @cached_property
     def _get_num_samples(self):
         if self.source:
-            return self.source.num_samples / self.num_per_average
+            return self.source.num_samples // self.num_per_average
         return None
 
     def result(self, num):
-- 
2.43.0


From b982face1739abed7f53e7f25befca09c40e2f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 75/80] fix: scaling of power spectral densities

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index c007437..24d2933 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -317,7 +317,7 @@ class AutoPowerSpectra(SpectraOut):
         if self.single_sided:
             scale *= 2
         if self.scaling == 'psd':
-            scale *= self.block_size * self.source.sample_freq
+            scale *= self.block_size / self.source.sample_freq
         return scale
 
     def result(self, num=1):
-- 
2.43.0


From d7e71a359a279c0c596b572d3023657d8abe1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:55 +0000
Subject: [PATCH 76/80] fix: CLEAN-SC maps of frequencies that follow a silent
 one

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index fc03eaa..b951b27 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1545,7 +1545,7 @@ class BeamformerCleansc(BeamformerBase):
             # h = self.steer._beamformerCall(f[i], self.r_diag, normfactor, (csm,))[0]
             h = beamformerFreq(param_steer_type, self.r_diag, normfactor, steer_vector(f[i]), csm)[0]
             # CLEANSC Iteration
-            result *= 0.0
+            result[:] = 0.0
             for j in range(J):
                 xi_max = h.argmax()  # index of maximum
                 powers[j] = hmax = h[xi_max]  # maximum
-- 
2.43.0


From 947f41c7d9c34917972afe0be721eca3acbd5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:22 +0000
Subject: [PATCH 77/80] fix: eigenvalue index follows the number of microphones

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index b951b27..c2bb2e0 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -870,7 +870,7 @@ class BeamformerEig(BeamformerBase):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['steer.mics', 'n'])
+    @property_depends_on(['steer.mics.digest', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
-- 
2.43.0


From 019ebf6b7220cef4d0a528238c54d22ab97ca643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 78/80] fix: cross spectral matrices of benchmark files with
 the same name

---
 acoular/aiaa/aiaa.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index bdb1182..555b178 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -26,8 +26,9 @@ Examples
 """  # noqa: W505
 
 import contextlib
+from hashlib import md5
 
-from numpy import array
+from numpy import array, ascontiguousarray
 from traits.api import (
     File,
     Instance,
@@ -100,6 +101,9 @@ class CsmAIAABenchmark(PowerSpectraImport):
     #: number of channels
     num_channels = Property()
 
+    #: The cross spectral matrix, read from the file.
+    csm = Property(desc='cross spectral matrix')
+
     #: HDF5 file object
     h5f = Instance(H5FileBase, transient=True)
 
@@ -122,6 +126,10 @@ class CsmAIAABenchmark(PowerSpectraImport):
                 self.h5f.close()
         file = _get_h5file_class()
         self.h5f = file(self.file)
+        checksum = md5()  # as files of different directories may have the same name
+        for name in ('csmReal', 'csmImaginary', 'binCenterFrequenciesHz'):
+            checksum.update(ascontiguousarray(self.h5f.get_data_by_reference('/CsmData/' + name)[:]))
+        self._csmsum = checksum.hexdigest()
 
     # @property_depends_on( 'block_size, ind_low, ind_high' )
     def _get_indices(self):
-- 
2.43.0


From e7837f6bbbf3a3cc59c0d4e9d0f2e829de97940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:40 +0000
Subject: [PATCH 79/80] fix: moving sources count the start of the data
 acquisition once

The time of reception already includes start, so start was added twice to the
time in the emitted signal (PointSource counts it once).
---
 acoular/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 5012bb7..928f7b7 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1211,7 +1211,7 @@ class MovingPointSource(PointSource):
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
             # emission time relative to start time
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
             try:
@@ -1578,7 +1578,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             rm1 = self.env._r(loc + diff, mpos)
             rm2 = self.env._r(loc - diff, mpos)
 
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
                 rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
@@ -1966,7 +1966,7 @@ class MovingLineSource(LineSource, MovingPointSource):
                 loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
-                inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
+                inds[:, s] = (te - self.start_t) * self.sample_freq
 
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
-- 
2.43.0


From 83e7974639ee71baf8d0301539d58e25de488d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:44 +0000
Subject: [PATCH 80/80] fix: UncorrelatedNoiseSource keeps all settings of its
 noise signal

The generators of the channels were created with the default depth, ar and ma.
---
 acoular/sources.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 928f7b7..467fb0b 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2124,7 +2124,6 @@ class UncorrelatedNoiseSource(SamplesGenerator):
         - Each channel's noise signal is generated using a unique random seed.
         - The type and characteristics of the noise are defined by the :attr:`signal` attribute.
         """
-        Noise = self.signal.__class__
         # create or get the array of random seeds
         if not self.seed.size > 0:
             seed = arange(self.num_channels) + self.signal.seed
@@ -2134,12 +2133,12 @@ class UncorrelatedNoiseSource(SamplesGenerator):
             msg = f'Seed array expected to be of shape ({self.num_channels:d},), but has shape {self.seed.shape}.'
             raise ValueError(msg)
         # create array with [num_channels] noise signal tracks
-        signal = array(
-            [
-                Noise(seed=s, num_samples=self.num_samples, sample_freq=self.sample_freq, rms=self.signal.rms).signal()
-                for s in seed
-            ],
-        ).T
+        noise = self.signal.clone_traits()  # same settings, the signal object is left as it was
+        signal = []
+        for s in seed:
+            noise.seed = int(s)
+            signal.append(noise.signal())
+        signal = array(signal).T
 
         n = num
         while n <= self.num_samples:
-- 
2.43.0

