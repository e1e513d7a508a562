From ed2ad6d4e983c5225a1252e751962be50e48b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 001/116] fix: keep the bits of every mode in from_symbol_array
 and honour dtype

from_symbol_array stored only the bits of the last mode and failed when the
requested dtype differed from the one of the symbols.
---
 qampy/signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 7d489bf..a18add6 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -765,8 +765,9 @@ class SignalQAMGrayCoded(SignalBase):
         scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt((abs(np.unique(symbs)) ** 2).mean())
         coded_symbols, graycode, encoding, bitmap_mtx = cls._generate_mapping(M, scale, dtype=dtype)
         out = np.empty_like(symbs).astype(dtype)
+        idx = np.zeros(symbs.shape, dtype=int)
         for i in range(symbs.shape[0]):
-            out[i], _, idx = make_decision(np.copy(symbs[i]), coded_symbols) # need a copy to avoid a pythran error
+            out[i], _, idx[i] = make_decision(np.array(symbs[i], dtype=dtype), coded_symbols) # need a copy to avoid a pythran error
         bits = cls._demodulate(idx, encoding)
         obj = np.asarray(out).view(cls)
         obj._M = M
-- 
2.43.0


From e741b5e6fa189a4d012ba5506e30a219e2d95fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 002/116] fix: from_bit_array stores the bits that are actually
 modulated

Bits beyond the last full symbol were truncated for the symbols but kept in
the bits attribute, and one-dimensional input left a one-dimensional attribute.
---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index a18add6..cc7ee87 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -821,7 +821,7 @@ class SignalQAMGrayCoded(SignalBase):
         obj._M = M
         obj._fb = fb
         obj._fs = fb
-        obj._bits = bits
+        obj._bits = arr
         obj._encoding = encoding
         obj._code = graycode
         obj._bitmap_mtx = bitmap_mtx
-- 
2.43.0


From 7982a6aa84c5965330f1df6840338352fc1d5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 003/116] fix: sgncma uses the signed CMA error instead of the
 CMA error

---
 qampy/core/equalisation/pythran_equalisation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 348fbf6..957613d 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -131,7 +131,7 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
     if method == "mcma":
         errorfct = mcma_error
     elif method == "sgncma":
-        errorfct = cma_error
+        errorfct = sgncma_error
     elif method == "cma2":
         errorfct = cma2_error
     elif method == "cma":
@@ -184,8 +184,9 @@ def cma2_error(Xest, s1, i):
     return d*Xest
 
 def sgncma_error(Xest, s1, i):
-    d = np.sign(s1[0] - abs(Xest)**2)
-    return d*(np.sign(Xest.real)+1j*np.sign(Xest.imag))
+    J = Xest.dtype.type(1j)
+    d = np.sign(s1[0].real - abs(Xest)**2)
+    return d*np.sign(Xest.real) + d*np.sign(Xest.imag)*J
 
 def mcma_error(Xest, s1, i):
     J = Xest.dtype.type(1j)
-- 
2.43.0


From 38fbd83e1430e835ac15f7aaeb3bef0ea15b8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 004/116] fix: data race on the angle index in the blind phase
 search

---
 qampy/core/pythran_dsp.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index c9f1365..256aaa4 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -73,12 +73,8 @@ def bps(E, testangles, symbols, N):
     dists = np.zeros((L, Ntestangles), dtype=testangles.dtype)+100.
     #omp parallel for
     for i in range(L):
-        if p > 1:
-            ph_idx = i
-        else:
-            ph_idx = 0
         for j in range(Ntestangles):
-            tmp = E[i] * comp[ph_idx, j]
+            tmp = E[i] * comp[i if p > 1 else 0, j] # no variable for the index, it would be shared between threads
             s, dtmp = det_symbol(tmp, symbols)
             if dtmp < dists[i, j]:
                 dists[i, j] = dtmp
-- 
2.43.0


From 5ba022e9c4e75470529257f666cac05943ff4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 005/116] fix: decisions far away from the alphabet and long
 phase-search windows

The search for the minimum started from fixed caps (1000, 100): samples
further away were decided on the symbol 1 or an undefined symbol, and the
blind phase search returned angle 0.
---
 qampy/core/equalisation/pythran_equalisation.py | 12 ++++++------
 qampy/core/pythran_dsp.py                       | 15 ++++++++-------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 957613d..694d4a9 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -256,9 +256,9 @@ def det_symbol(X, symbs):
     d : float
         distance of X from s
     """
-    d0 = 1000.
-    s = symbs.dtype.type(1)
-    for j in range(symbs.shape[0]):
+    s = symbs[0]
+    d0 = abs(X-s)**2
+    for j in range(1, symbs.shape[0]):
         d = abs(X-symbs[j])**2
         if d < d0:
             d0 = d
@@ -286,12 +286,12 @@ def det_symbol_parallel(X, symbs): # this version can be much faster if not in a
     d : float
          distance of X from s
     """
-    d0 = 1000.
-    s = symbs.dtype.type(1)
+    s = symbs[0]
+    d0 = abs(X-s)**2
     d0_priv = d0
     s_priv = s
     ##omp parallel for
-    for j in range(symbs.shape[0]):
+    for j in range(1, symbs.shape[0]):
         d = abs(X-symbs[j])**2
         if d < d0_priv:
             d0_priv = d
diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index 256aaa4..4f48bba 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -14,8 +14,9 @@ def cal_exp_sum(sym , syms, z, sigma):
 
 #we need to use this version because of #1133 which made argmin significantly slower
 def det_symbol(X, symbs):
-    d0 = 1000.
-    for j in range(symbs.shape[0]):
+    s = symbs[0]
+    d0 = cabsq(X-s)
+    for j in range(1, symbs.shape[0]):
         d = cabsq(X-symbs[j])
         if d < d0:
             d0 = d
@@ -28,12 +29,13 @@ def select_angle_index(x, N):
     csum = np.zeros((L, M), dtype=x.dtype)
     idx = np.zeros(L, dtype=np.int32)
     for i in range(1, L):
-        dmin = 1000.
         if i < N:
             for k in range(M):
                 csum[i, k] = csum[i-1, k] + x[i, k]
         else:
-            for k in range(M):
+            csum[i, 0] = csum[i-1, 0] + x[i, 0]
+            dmin = csum[i, 0] - csum[i-N, 0]
+            for k in range(1, M):
                 csum[i, k] = csum[i-1, k] + x[i, k]
                 dtmp = csum[i, k] - csum[i-N, k]
                 if dtmp < dmin:
@@ -70,14 +72,13 @@ def bps(E, testangles, symbols, N):
     M = symbols.shape[0]
     Ntestangles = testangles.shape[1]
     comp = np.exp(1j*testangles)
-    dists = np.zeros((L, Ntestangles), dtype=testangles.dtype)+100.
+    dists = np.zeros((L, Ntestangles), dtype=testangles.dtype)
     #omp parallel for
     for i in range(L):
         for j in range(Ntestangles):
             tmp = E[i] * comp[i if p > 1 else 0, j] # no variable for the index, it would be shared between threads
             s, dtmp = det_symbol(tmp, symbols)
-            if dtmp < dists[i, j]:
-                dists[i, j] = dtmp
+            dists[i, j] = dtmp
     return select_angle_index(dists, 2*N)
 
 def cal_l_values(btx, rx, snr):
-- 
2.43.0


From d4822fabf35d7a153fe99e5c5970bcd58cdabe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 006/116] fix: equaliser training does not overwrite the
 initial taps of the caller

---
 qampy/core/equalisation/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 4bef90f..11e6c63 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -544,7 +544,7 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
     if wxy is None:
         wxy = _init_taps(Ntaps, nmodes, nmodes, E.dtype)
     else:
-        wxy = np.ascontiguousarray(wxy, dtype=E.dtype)
+        wxy = np.array(wxy, dtype=E.dtype, order="C") # always a copy, the training works in place
         Ntaps = wxy.shape[-1]
         assert wxy.ndim == 3, "wxy needs to be three dimensional"
         assert wxy.shape[:2] == (nmodes, nmodes), "The first 2 dimensions of wxy need to be the same shape as E"
-- 
2.43.0


From 2d7f01ef714f1719fe201f0e6dfb6c2f4589a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 007/116] fix: dual_mode_equalisation without symbols used NaN
 as the alphabet

---
 qampy/core/equalisation/equalisation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 11e6c63..cbc341a 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -454,9 +454,12 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
 
     if apply is False do not return E
     """
-    symbols = np.atleast_1d(symbols)
-    if symbols.ndim < 3:
-        symbols = np.tile(symbols, (2,1,1))
+    if symbols is None:
+        symbols = (None, None)
+    else:
+        symbols = np.atleast_1d(symbols)
+        if symbols.ndim < 3:
+            symbols = np.tile(symbols, (2,1,1))
     wxy, err1 = equalise_signal(E, os, mu[0], M, wxy=wxy, Ntaps=Ntaps, TrSyms=TrSyms[0], Niter=Niter[0], method=methods[0], adaptive_stepsize=adaptive_stepsize[0], symbols=symbols[0],  modes=modes,**kwargs)
     wxy2, err2 = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, **kwargs)
     if apply:
-- 
2.43.0


From cd7572d58a84acd03fa7c2abb7b9f8d0a9debf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 008/116] fix: dual_mode_equalisation of selected modes with
 real-valued methods returned no signal

---
 qampy/core/equalisation/equalisation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index cbc341a..8d89025 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -463,6 +463,8 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
     wxy, err1 = equalise_signal(E, os, mu[0], M, wxy=wxy, Ntaps=Ntaps, TrSyms=TrSyms[0], Niter=Niter[0], method=methods[0], adaptive_stepsize=adaptive_stepsize[0], symbols=symbols[0],  modes=modes,**kwargs)
     wxy2, err2 = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, **kwargs)
     if apply:
+        if modes is not None and methods[1].lower() in REAL_VALUED:
+            modes = np.hstack([np.atleast_1d(modes), np.atleast_1d(modes) + wxy2.shape[0]//2])
         Eest = apply_filter(E, os, wxy2, modes=modes)
         return Eest, wxy2, (err1, err2)
     else:
-- 
2.43.0


From 6b51f47c372b1021181e1c80710495555be73daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 009/116] fix: reject equaliser arguments that make the
 compiled kernels leave their arrays

Too many training symbols, too few data-aided symbols, modes that do not
exist, taps for another number of modes or longer than the signal led to
reads beyond the end of the arrays.
---
 qampy/core/equalisation/equalisation.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 8d89025..6e938a2 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -170,6 +170,16 @@ def apply_filter(E, os, wxy, method="pyt", modes=None):
     else:
         modes = np.copy(np.atleast_1d(modes))
     nmodes = modes.shape[0]
+    # the compiled function does not check any bounds
+    if os < 1:
+        raise ValueError("oversampling factor must be larger than 0")
+    if np.any(modes < 0) or np.any(modes >= wxy.shape[0]):
+        raise ValueError("modes need to be between 0 and {}".format(wxy.shape[0]-1))
+    n_in = E.shape[0] if np.iscomplexobj(wxy) or not np.iscomplexobj(E) else 2*E.shape[0]
+    if wxy.shape[1] != n_in:
+        raise ValueError("taps are for {} inputs, but the signal has {}".format(wxy.shape[1], n_in))
+    if not 0 < wxy.shape[-1] <= E.shape[-1]:
+        raise ValueError("number of taps needs to be between 1 and the length of the signal")
     if method == "py":
         return apply_filter_py(E, os, wxy)
     elif method == "pyt":
@@ -556,6 +566,19 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
     if TrSyms is None:
         TrSyms = _cal_training_symbol_len(os, Ntaps, E.shape[-1])
     symbols = _reshape_symbols(symbols, method, M, E.dtype, nmodes)
+    # the compiled functions do not check any bounds
+    if os < 1:
+        raise ValueError("oversampling factor must be larger than 0")
+    if Ntaps < 1:
+        raise ValueError("number of taps must be larger than 0")
+    if Niter < 0:
+        raise ValueError("number of iterations must not be negative")
+    if np.any(modes < 0):
+        raise ValueError("mode numbers must not be negative")
+    if TrSyms < 0 or (TrSyms - 1)*os + Ntaps > E.shape[-1]:
+        raise ValueError("signal of length {} is too short for {} training symbols and {} taps".format(E.shape[-1], TrSyms, Ntaps))
+    if method in DATA_AIDED and symbols.shape[-1] < TrSyms:
+        raise ValueError("{} training symbols, but only {} known symbols".format(TrSyms, symbols.shape[-1]))
     if method in REAL_VALUED:
         err, wxy, mu = pythran_equalisation.train_equaliser_realvalued(E, TrSyms, Niter, os, mu, wxy, modes, adaptive_stepsize, symbols.copy(), method[:-5]) # copies are needed because pythran has problems with reshaped arrays
     else:
-- 
2.43.0


From fba73c11274d2797f6292bc46f930929be201508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 010/116] fix: dual_mode_equalisation with a data-aided first
 method got the alphabet as training symbols

---
 qampy/equalisation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 209b959..ffb100f 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -247,6 +247,7 @@ def dual_mode_equalisation(sig, mu, Ntaps, TrSyms=(None, None), Niter=(1, 1), me
         for method in methods:
             if method in core.equalisation.DATA_AIDED:
                 symbols = sig.symbols
+                break # the symbol sequence serves the decision directed methods as well
             else:
                 try:
                     symbols = sig.coded_symbols
-- 
2.43.0


From d4d759552395088e22ac804399ac016de211ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 011/116] fix: adjusting data to a multiple of its length at an
 offset added a period

---
 qampy/core/ber_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index d8e6e1d..20188e8 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -316,7 +316,7 @@ def _adjust_to(data, N, back=True):
     if back:
         data = np.hstack([tmp, data[:rem]])
     else:
-        data = np.hstack([data[-rem:], tmp])
+        data = np.hstack([data[L-rem:], tmp]) # not -rem, rem can be zero
     return data
 
 def cal_ber_syncd(data_rx, data_tx, threshold=0.2):
-- 
2.43.0


From bc6b6a67f0f7b0c95864584958b19d63c96b088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 012/116] fix: find_sequence_offset_complex of real data
 returns the peak, not the whole correlation

---
 qampy/core/ber_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index 20188e8..df0a49e 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -93,8 +93,8 @@ def find_sequence_offset_complex(x, y):
     """
     acm = 0.
     if not np.iscomplexobj(x) and not np.iscomplexobj(y):
-        idx, acm = find_sequence_offset(x, y, show_cc=True)
-        return idx, y, 0, acm
+        idx, ac = find_sequence_offset(x, y, show_cc=True)
+        return idx, y, 0, abs(ac).max()
     for i in range(4):
         rx = y * 1.j ** i
         idx, ac = find_sequence_offset(x, rx, show_cc=True)
-- 
2.43.0


From c66f48df932bcdc107f48c9a1b3a4ade4b8790c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 013/116] fix: cal_ber_nosyncd used an undefined variable

---
 qampy/core/ber_functions.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index df0a49e..269285e 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -383,12 +383,8 @@ def cal_ber_nosyncd(data_rx, data_tx):
     N : int
         length of data
     """
-    try:
-        idx = find_sequence_offset(data_tx, data_rx)
-    except DataSyncError:
-        # if we cannot sync try to use inverted data
-        idx = find_sequence_offset(~data_tx, data_rx)
-    data_tx_sync = adjust_data_length(data_tx_sync, data_rx)
-    #TODO this still returns a slightly smaller value, as if there would be
-    # one less error, maybe this happens in the adjust_data_length
-    return cal_ber_syncd(data_rx, data_tx_sync)
+    # correlate +-1 instead of 0 and 1, the mean would dominate the correlation
+    (tx_sync, rx_sync), acm = sync_and_adjust(1. - 2.*data_tx, 1. - 2.*data_rx)
+    if np.sum(tx_sync*rx_sync) < 0: # the data is inverted
+        tx_sync = -tx_sync
+    return cal_ber_syncd(rx_sync < 0, tx_sync < 0)
-- 
2.43.0


From 461d6ac9a9e48bb4c1dfae7f6a7480f871ecd603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 014/116] fix: cal_ser_qam decided on the QAM order instead of
 the alphabet

---
 qampy/core/signal_quality.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qampy/core/signal_quality.py b/qampy/core/signal_quality.py
index cd47db2..eec9064 100644
--- a/qampy/core/signal_quality.py
+++ b/qampy/core/signal_quality.py
@@ -271,7 +271,7 @@ def cal_snr_blind_qpsk(E):
     return SNR
 
 
-def cal_ser_qam(data_rx, symbol_tx, M, method="pyx"):
+def cal_ser_qam(data_rx, symbol_tx, M, method="pyt"):
     """
     Calculate the symbol error rate
 
@@ -285,14 +285,17 @@ def cal_ser_qam(data_rx, symbol_tx, M, method="pyx"):
     M       : int
         QAM order
     method : string, option
-        method to use for decision making (either `af` for arrayfire or `pyx` for cython)
+        method to use for decision making (either `af` for arrayfire or `pyt` for pythran)
 
     Returns
     -------
     SER : float
         Symbol error rate estimate
     """
-    data_demod = make_decision(data_rx, M, method=method)
+    symbols = (cal_symbols_qam(M)/np.sqrt(cal_scaling_factor_qam(M))).astype(data_rx.dtype)
+    data_demod = make_decision(data_rx, symbols, method=method)
+    if method == "pyt":
+        data_demod = data_demod[0]
     return np.count_nonzero(data_demod - symbol_tx) / len(data_rx)
 
 def generate_bitmapping_mtx(coded_symbs, coded_bits, M, dtype=np.complex128):
-- 
2.43.0


From e72ddeef2c99e1bfbbc5f275980aefce69e38b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 015/116] fix: SymbolOnlySignal honours its dtype

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index cc7ee87..aff9d35 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1049,7 +1049,7 @@ class SymbolOnlySignal(SignalQAMGrayCoded):
             coded_symbols = symbols
         else:
             coded_symbols = symbols.astype(dtype)
-        obj = np.random.choice(symbols, (nmodes, N))
+        obj = np.random.choice(coded_symbols, (nmodes, N))
         obj = obj.view(cls)
         obj._coded_symbols = coded_symbols
         obj._M = M
-- 
2.43.0


From 8028ba9316ff2eff795138e1e6750a8102d2e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 016/116] fix: oversampling factor lost one to rounding when fs
 is a rounded multiple of fb

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index aff9d35..ed76970 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -178,7 +178,7 @@ class SignalBase(np.ndarray):
 
     @property
     def os(self):
-        return int(self.fs/self.fb)
+        return int(np.round(self.fs/self.fb, 9)) # rounding errors of the quotient must not lose a sample
 
     @staticmethod
     def _copy_inherits(objold, objnew):
-- 
2.43.0


From eac0e64a3b7f1e8c30da3c50f0a0218336bdd410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 017/116] fix: recreate_from_np_array keeps a fractional
 oversampling ratio

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index ed76970..769148e 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -210,7 +210,7 @@ class SignalBase(np.ndarray):
         obj = arr.view(self.__class__)
         self._copy_inherits(self, obj)
         if "fb" in kwargs and not "fs" in kwargs:
-            kwargs["fs"] = self.os * kwargs['fb']
+            kwargs["fs"] = self.fs / self.fb * kwargs['fb']
         for k, v in kwargs.items():
             if "_"+k in self._inheritattr_:
                 k = "_" + k
-- 
2.43.0


From 033322903032194dd94993d6a1e933235de0d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 018/116] fix: cal_ser_qam counted rounding of the alphabet as
 symbol errors

---
 qampy/core/signal_quality.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/signal_quality.py b/qampy/core/signal_quality.py
index eec9064..1ecf371 100644
--- a/qampy/core/signal_quality.py
+++ b/qampy/core/signal_quality.py
@@ -294,9 +294,10 @@ def cal_ser_qam(data_rx, symbol_tx, M, method="pyt"):
     """
     symbols = (cal_symbols_qam(M)/np.sqrt(cal_scaling_factor_qam(M))).astype(data_rx.dtype)
     data_demod = make_decision(data_rx, symbols, method=method)
+    data_tx = make_decision(np.ascontiguousarray(symbol_tx, dtype=data_rx.dtype), symbols, method=method)
     if method == "pyt":
-        data_demod = data_demod[0]
-    return np.count_nonzero(data_demod - symbol_tx) / len(data_rx)
+        data_demod, data_tx = data_demod[0], data_tx[0]
+    return np.count_nonzero(data_demod - data_tx) / len(data_rx)
 
 def generate_bitmapping_mtx(coded_symbs, coded_bits, M, dtype=np.complex128):
     num_bits = int(np.log2(M))
-- 
2.43.0


From 42a474d21b5e5bb8e7bde0a7bee21d50bb4cf024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 019/116] fix: find_offset matched bytes across the boundaries
 of the elements

---
 qampy/core/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 502f341..a07175b 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -150,7 +150,11 @@ def find_offset(sequence, data):
         data = data.astype(sequence.dtype)
     # using this string conversion method is much faster than array methods,
     # however it only finds the first occurence
-    return data.tostring().index(sequence.tostring()) // data.itemsize
+    data_b, sequence_b = data.tobytes(), sequence.tobytes()
+    idx = data_b.index(sequence_b)
+    while idx % data.itemsize: # the bytes can also match across the boundaries of the elements
+        idx = data_b.index(sequence_b, idx + 1)
+    return idx // data.itemsize
 
 
 def rolling_window(data, size, wrap=False):
-- 
2.43.0


From e96d73b14d683de303e76a5d005b6d9c696c1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 020/116] fix: sync_rx2tx and sync_tx2rx reported offset 0 when
 they ran out of received data

---
 qampy/core/ber_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index 269285e..142c877 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -192,6 +192,8 @@ def sync_rx2tx(data_tx, data_rx, Lsync, imax=200):
     for i in np.arange(imax)*Lsync:
         try:
             sequence = data_rx[i:i + Lsync]
+            if len(sequence) < Lsync:
+                break
             idx_offs = utils.find_offset(sequence, data_tx)
             idx_offs = idx_offs - i
             data_rx_synced = np.roll(data_rx, idx_offs)
@@ -232,6 +234,8 @@ def sync_tx2rx(data_tx, data_rx, Lsync, imax=200):
     for i in np.arange(imax)*Lsync:
         try:
             sequence = data_rx[i:i + Lsync]
+            if len(sequence) < Lsync:
+                break
             idx_offs = utils.find_offset(sequence, data_tx)
             idx_offs = idx_offs - i
             data_tx_synced = np.roll(data_tx, -idx_offs)
-- 
2.43.0


From 64d8215d25f090b6b6b219626a86ad0fb1b7b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 021/116] fix: offset search of bit sequences correlated their
 mean

---
 qampy/core/ber_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index 142c877..ac548a9 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -56,9 +56,9 @@ def find_sequence_offset(x, y, show_cc=False):
     crosscorrelation: array_like, optional
         the "full" crosscorrelation between x and y
     """
-    # needed to convert bools to integers
-    X = 1.*x
-    Y = 1.*y
+    # bools are correlated as +-1, otherwise their mean dominates the correlation
+    X = 1.-2.*x if x.dtype == bool else 1.*x
+    Y = 1.-2.*y if y.dtype == bool else 1.*y
     N_X = X.shape[0]
     N_Y = Y.shape[0]
     if np.issubdtype(Y.dtype , np.complexfloating):
-- 
2.43.0


From 5fedd04de1747f420dcfd5b432969b2d2cf76652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 022/116] fix: cal_ser of rotated PSK signals counted rounding
 as symbol errors

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 769148e..34e2e00 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -328,7 +328,7 @@ class SignalBase(np.ndarray):
         symbols_tx, signal_rx = self._sync_and_adjust(self.symbols, signal_rx, synced)
         data_demod = self.make_decision(signal_rx)
         #errs = np.count_nonzero(data_demod - symbols_tx, axis=-1)
-        errs = data_demod - symbols_tx
+        errs = data_demod - self.make_decision(symbols_tx) # rotated symbols are not exactly in the alphabet
         if verbose:
             return np.count_nonzero(errs, axis=-1) / data_demod.shape[1], errs, symbols_tx
         else:
-- 
2.43.0


From aeea95041d86d420a96b742da97a1c37c56c3db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 023/116] fix: SignalWithPilots with repeat_pilots=False and
 several frames generated pilots for one frame only

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 34e2e00..a73e3c8 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1499,7 +1499,7 @@ class SignalWithPilots(SignalBase):
         if repeat_pilots:
             pilots = np.tile(SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale, (1, nframes))
         else:
-            pilots = SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale
+            pilots = SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil)*nframes, nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale
 
         # Note that currently the phase pilots start one symbol after the sequence
         # TODO: we should probably fix this
-- 
2.43.0


From 7c34a8778a8870b17407208c09c1bf628cd70fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 024/116] fix: pilot signals made with pilot_idx stored
 integers instead of the masks that get_data and extract_pilots use

---
 qampy/signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index a73e3c8..f02cff6 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1598,8 +1598,8 @@ class SignalWithPilots(SignalBase):
             idx = np.arange(frame_len)
             pidx = np.zeros(idx.shape, dtype=bool)
             pidx[pilot_idx] = True
-            idx_pil = idx[pidx]
-            idx_dat = idx[~pidx]
+            idx_pil = pidx
+            idx_dat = ~pidx
         assert np.count_nonzero(idx_dat) <= N, "data frame is to short for the given frame length"
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
-- 
2.43.0


From 3aa6317e2856a9fe082ae7d518ff583a090f60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 025/116] fix: SignalWithPilots.from_symbol_array kept the
 payload order in its default argument

---
 qampy/signals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index f02cff6..326bd6b 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1603,8 +1603,7 @@ class SignalWithPilots(SignalBase):
         assert np.count_nonzero(idx_dat) <= N, "data frame is to short for the given frame length"
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
-            M = kwargs.pop("M")
-            payload_kwargs["M"] = M
+            payload_kwargs = dict(payload_kwargs, M=kwargs.pop("M"))
         if np.count_nonzero(idx_dat) > N:
             warnings.warn("Data for frame is shorter than length of data array, truncating")
         if payload_is_frame:
-- 
2.43.0


From 52fdb32226a3f486a76bf9e67bee282f428e9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 026/116] fix: ph_pilots of several frames contained the pilot
 sequences of the later frames

---
 qampy/signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 326bd6b..a19e73e 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1662,7 +1662,8 @@ class SignalWithPilots(SignalBase):
 
     @property
     def ph_pilots(self):
-        return self._pilots[:, self._pilot_seq_len:]
+        npil = np.count_nonzero(self._idx_pil) # the pilots of all frames follow each other
+        return self._pilots[:, np.arange(self._pilots.shape[-1]) % npil >= self._pilot_seq_len]
 
     @property
     def pilots(self):
-- 
2.43.0


From b3750bdab326f6a1e3585f851aafb51b6459a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 027/116] fix: get_data and extract_pilots of selected frames
 failed or kept the reference of other frames

---
 qampy/signals.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index a19e73e..812d87f 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1767,19 +1767,25 @@ class SignalWithPilots(SignalBase):
         """
         if frames is None:
             frames = np.arange(self.nframes)
-            nframes = self.nframes
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
-            assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
-        #idx = np.hstack([np.nonzero(self._idx_dat)[0] + i * self._frame_len for i in frames] )
-        if nframes < 1:
+            assert np.max(frames) < self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
+        if self.nframes < 1:
             idx = self._idx_dat[:self.shape[-1]]
-        else:
-            idx = np.zeros(self.frame_len*nframes, dtype=bool)
-            for i in frames:
-                idx[i*self.frame_len:(i+1)*self.frame_len] = self._idx_dat
-        return self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
+            return self.symbols.recreate_from_np_array(self[:, idx].copy())
+        idx = np.hstack([np.nonzero(self._idx_dat)[0] + i * self._frame_len for i in frames] )
+        out = self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
+        ndat = np.count_nonzero(self._idx_dat)
+        if ndat > 0: # the reference has to be the one of the selected frames
+            nref = max(1, self.symbols.shape[-1] // ndat)
+            iref = np.hstack([np.arange(ndat) + (i % nref) * ndat for i in frames])
+            out._symbols = self.symbols[:, iref].copy()
+            if getattr(out, "_bits", None) is not None:
+                nb = out.Nbits
+                nbref = min(nref, max(1, out._bits.shape[-1] // (ndat*nb)))
+                ibits = np.hstack([np.arange(ndat*nb) + (i % nbref) * ndat*nb for i in frames])
+                out._bits = out._bits[:, ibits]
+        return out
 
     def extract_pilots(self, frames=None):
         """
@@ -1799,10 +1805,14 @@ class SignalWithPilots(SignalBase):
             frames = np.arange(self.nframes)
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
-            assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
+            assert np.max(frames) < self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
         idx = np.hstack([np.nonzero(self._idx_pil)[0] + i * self._frame_len for i in frames] )
-        return self.pilots.recreate_from_np_array(self[:, idx])
+        out = self.pilots.recreate_from_np_array(self[:, idx])
+        npil = np.count_nonzero(self._idx_pil)
+        if npil > 0: # the reference has to be the one of the selected frames
+            nref = max(1, out.symbols.shape[-1] // npil)
+            out._symbols = out.symbols[:, np.hstack([np.arange(npil) + (i % nref) * npil for i in frames])].copy()
+        return out
 
     def __getattr__(self, attr):
         return getattr(self._symbols, attr)
-- 
2.43.0


From 623c6e59782cfafecfff554da5da5c2cf34111c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 028/116] fix: cal_gmi with use_pilot_snr passed the linear SNR
 of all frames as dB

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 812d87f..6ead834 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1924,7 +1924,7 @@ class SignalWithPilots(SignalBase):
         if signal_rx is None:
             signal_rx = self.get_data(frames=frames)
         if use_pilot_snr:
-            snr = self.est_snr(use_pilots=True)
+            snr = 10*np.log10(self.est_snr(frames=frames, use_pilots=True)) # cal_gmi expects dB
         return signal_rx.cal_gmi(synced=synced, snr=snr)
 
     def est_snr(self, frames=None, synced=True, signal_rx=None, symbols_tx=None, use_pilots=False):
-- 
2.43.0


From c4cf4ef8a029b358e3f192e187faeed703d0b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 029/116] fix: pilot_cpe of several frames compared received
 pilots with pilots of other positions

---
 qampy/core/pilotbased_receiver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index e60dc63..25c437e 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -308,7 +308,11 @@ def pilot_based_cpe_new(signal, pilot_symbs,  pilot_idx, frame_len, seq_len=None
     ilim = pilot_idx_full < nlen
     pilot_idx_full = pilot_idx_full[ilim]
     rec_pilots = signal[:, pilot_idx_full]
-    pilot_symbs = np.tile(pilot_symbs[:, ::use_pilot_ratio], nframes)[:, :rec_pilots.shape[-1]]
+    # the reference pilots hold one or several frames, select the same ones as above in each of them
+    pilot_symbs = pilot_symbs[:, :pilot_symbs.shape[-1]//pilot_idx.shape[-1]*pilot_idx.shape[-1]]
+    pilot_symbs = pilot_symbs.reshape(pilot_symbs.shape[0], -1, pilot_idx.shape[-1])[:, :, :max_num_blocks:use_pilot_ratio]
+    pilot_symbs = pilot_symbs[:, np.arange(nframes) % pilot_symbs.shape[1]].reshape(pilot_symbs.shape[0], -1)
+    pilot_symbs = pilot_symbs[:, :rec_pilots.shape[-1]]
     assert rec_pilots.shape == pilot_symbs.shape, "Inproper pilot configuration, the number of"\
             +" received pilots differs from reference ones"
     # Check for a out of bounch error
-- 
2.43.0


From 329e9ad9109ad0bc5f5390f3a15bf24cd2bc3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 030/116] fix: pilot_equaliser trained on the wrong samples for
 later frames and for starts before the signal

---
 qampy/equalisation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index ffb100f..01611db 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -317,7 +317,10 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
     if (abs(Ntaps-signal.synctaps) % 2) != 0:
         raise ValueError("Tap difference need to be an integer of the oversampling")
     elif Ntaps != signal.synctaps:
-        eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2 + signal.os*signal.frame_len*frame
+        eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2
+    if np.min(eq_shiftfctrs) < 0: # same as when the filter is applied
+        eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len
+    eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len*frame
     assert signal.shape[-1] - eq_shiftfctrs.max() > signal.frame_len*signal.os, "You are trying to equalise an incomplete frame which does not work"
     
     taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, eq_shiftfctrs, os=signal.os, mu=mu,
-- 
2.43.0


From 8d4ee91ba6f83045d09f7f865d4870225cd19807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 031/116] fix: applying a pilot equaliser does not change the
 shift factors of the signal

---
 qampy/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 01611db..20a517a 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -45,7 +45,7 @@ def _apply_to_pilotsignal(sig, wxy, frames):
     if Ntaps != sig.synctaps:
         shiftfctrs = shiftfctrs - (Ntaps - sig.synctaps)//2
     if np.min(shiftfctrs) < 0:
-        shiftfctrs += sig.os*sig.frame_len
+        shiftfctrs = shiftfctrs + sig.os*sig.frame_len
     assert shiftfctrs.max() + sig.os*sig.frame_len*(max(frames)+1) < sig.shape[-1] - (Ntaps - 1), \
         "Trying to equalise frame {}, but signal is not long enough".format(max(frames))
     if np.all(np.diff(frames) == 1):
-- 
2.43.0


From 86b7e343d6de113b93358ab7117f129f1cea880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 032/116] fix: pilot_equaliser with verbose and without apply
 returned nothing

---
 qampy/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 20a517a..db838de 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -337,7 +337,7 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
             return taps_all, eq_mode_sig
     else:
         if verbose:
-            taps_all, foe_all, (Ntaps, signal.synctaps)
+            return taps_all, foe_all, (Ntaps, signal.synctaps)
         else:
             return taps_all
         
-- 
2.43.0


From 53b8057e319b16c521ddf7ca3e6af1255c8484c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 033/116] fix: pilot_equaliser_nframes without apply and
 verbose took one mode's taps for the taps of a frame

---
 qampy/equalisation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index db838de..e9ab807 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -388,6 +388,8 @@ def pilot_equaliser_nframes(signal, mu, Ntaps, apply=True, foe_comp=True, frames
     rets= []
     for i in frames:
         ret = pilot_equaliser(signal, mu, Ntaps, apply=apply, foe_comp=foe_comp, wxinit=wxinit, verbose=verbose, frame=i, **eqkwargs)
+        if not isinstance(ret, tuple):
+            ret = (ret,)
         if i == 0:
             wxinit = ret[0]
         rets.append(ret)
-- 
2.43.0


From 56c63c63b220084a82a7597bc4e75f13fa8c8cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 034/116] fix: pilot_equaliser assumed QPSK pilots whatever the
 order of the pilots

---
 qampy/core/pilotbased_receiver.py | 2 +-
 qampy/equalisation.py             | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 25c437e..a9e10c7 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -543,7 +543,7 @@ def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=Fals
                 rx_sig_mode = phaserecovery.comp_freq_offset(rx_sig_mode, np.ones(foePerMode.shape)*foe, os=os)
             out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[0], M_pilot, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
                                                                 method=methods[0], adaptive_stepsize=adaptive_stepsize, modes=[i], symbols=ref_symbs, apply=False)
-            out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[1], 4, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
+            out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[1], M_pilot, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
                                                          method=methods[1], adaptive_stepsize=adaptive_stepsize, modes=[i], symbols=ref_symbs, apply=False)
     else:
         rx_sig_mode = rx_signal[:, shift_fctrs[0] : shift_fctrs[0] + pilot_seq_len * os + Ntaps - 1]
diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index e9ab807..e49c826 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -323,6 +323,7 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
     eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len*frame
     assert signal.shape[-1] - eq_shiftfctrs.max() > signal.frame_len*signal.os, "You are trying to equalise an incomplete frame which does not work"
     
+    eqkwargs.setdefault("M_pilot", signal.Mpilots)
     taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, eq_shiftfctrs, os=signal.os, mu=mu,
                                                                     foe_comp=foe_comp, Ntaps = Ntaps, wxinit=wxinit, **eqkwargs)
     if foe_comp:
-- 
2.43.0


From 31e81c1b5ef3a31e04763503f7d8bc448cde58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 035/116] fix: decisions and metrics of strided signals, e.g.
 every second sample, raised TypeError

---
 qampy/signals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 6ead834..ebb23c0 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -201,10 +201,11 @@ class SignalBase(np.ndarray):
                 self._symbols = obj._symbols
 
     def _signal_present(self, signal):
+        # the compiled functions only take contiguous rows
         if signal is None:
-            return np.atleast_2d(self)
+            return np.asanyarray(np.atleast_2d(self), order="C")
         else:
-            return np.atleast_2d(signal)
+            return np.asanyarray(np.atleast_2d(signal), order="C")
 
     def recreate_from_np_array(self, arr, **kwargs):
         obj = arr.view(self.__class__)
-- 
2.43.0


From 9b64ebd7e46bed6bb7bf73a4c9e1bd55cd44509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 036/116] fix: TDHQAMSymbols.from_symbol_arrays rescaled the
 symbol array of the caller

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index ebb23c0..5aa9145 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1344,7 +1344,7 @@ class TDHQAMSymbols(SignalBase):
         assert syms_M1.shape[0] == syms_M2.shape[0], "Number of modes must be the same"
         f_M, f_M1, f_M2 = cls._cal_fractions(fr)
         scale = cls.calculate_power_ratio(syms_M1.coded_symbols, syms_M2.coded_symbols, power_method)
-        syms_M2 /= np.sqrt(scale)
+        syms_M2 = syms_M2 / np.sqrt(scale)
         N1 = syms_M1.shape[1]
         N2 = syms_M2.shape[1]
         N = N1 + N2
-- 
2.43.0


From f35eada09073bbd942093c428eb6c3baf9eecdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 037/116] fix: TDHQAMSymbols.from_symbol_arrays failed when the
 arrays had to be truncated

---
 qampy/signals.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 5aa9145..cd642e1 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1351,7 +1351,10 @@ class TDHQAMSymbols(SignalBase):
         nframes = N // f_M
         if (nframes * f_M1 > N1) or (nframes * f_M2 > N2):
             warnings.warn("Need to truncate input arrays as ratio is not possible otherwise")
-            nframes = min(N1 // f_M1, N2 // f_M2)
+        # a format that is not in the frame does not limit the number of frames
+        nframes = min(Ni // fi for Ni, fi in ((N1, f_M1), (N2, f_M2)) if fi > 0)
+        syms_M1 = syms_M1[:, :nframes * f_M1]
+        syms_M2 = syms_M2[:, :nframes * f_M2]
         N = nframes * f_M
         out = np.zeros((syms_M1.shape[0], N), dtype=syms_M1.dtype)
         idx, idx1, idx2 = cls._cal_symbol_idx(N, f_M, f_M1)
-- 
2.43.0


From e5860486e982c7237acc64cc2fc9fad7eee82c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 038/116] fix: dividing a time-domain hybrid signal used
 attributes that do not exist and a wrong period

---
 qampy/signals.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index cd642e1..8b88ea0 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1228,7 +1228,7 @@ class TDHQAMSymbols(SignalBase):
     fs : float
         sampling rate
     """
-    _inheritattr_ = ["_symbols_M1", "_symbols_M2", "_fr", "_powratio" ]
+    _inheritattr_ = ["_symbols_M1", "_symbols_M2", "_fr", "_powratio", "_power_method" ]
 
     def __new__(cls, M, N, fr=0.5, power_method="dist",
                 M1class=SignalQAMGrayCoded, M2class=SignalQAMGrayCoded, **kwargs):
@@ -1413,13 +1413,13 @@ class TDHQAMSymbols(SignalBase):
             for i in range(signal.shape[0]):
                 imax = 0
                 pmax = -10
-                for j in range(self._frame_len):
-                    pmax_n = np.mean(abs(signal[i, (idx_m + j) % idx.max()]))
+                for j in range(self.f_M):
+                    pmax_n = np.mean(abs(signal[i, (idx_m + j) % idx.size]))
                     if pmax_n > pmax:
                         imax = j
                         pmax = pmax_n
-                syms1[i, :] = signal[i, (idx1 + imax) % idx.max()]
-                syms2[i, :] = signal[i, (idx2 + imax) % idx.max()]
+                syms1[i, :] = signal[i, (idx1 + imax) % idx.size]
+                syms2[i, :] = signal[i, (idx2 + imax) % idx.size]
             return self._symbols_M1.from_symbol_array(syms1, fb=self.fb, M=self.M[0]), \
                    self._symbols_M2.from_symbol_array(syms2, fb=self.fb, M=self.M[1])
         else:
-- 
2.43.0


From d4025d91d78ce77b59702ceb7087df92f0398411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 039/116] fix: add_dispersion swapped the modes

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 4a325e8..06159c5 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -698,6 +698,6 @@ def add_dispersion(sig, fs, D, L, wl0=1550e-9):
     beta2 = D * wl0**2 / (C*np.pi*2)
     H = np.exp(-0.5j * omega**2 * beta2 * L).astype(sig.dtype)
     sff = fft.fft(fft.ifftshift(sig, axes=-1), axis=-1)
-    sig_out = fft.fftshift(fft.ifft(sff*H))
+    sig_out = fft.fftshift(fft.ifft(sff*H), axes=-1)
     return sig_out
 
-- 
2.43.0


From 55f604fbe652e1ae1452afa8799da47a973c2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 040/116] fix: simulate_transmission with dispersion used an
 undefined variable

---
 qampy/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/impairments.py b/qampy/impairments.py
index b4543ab..5677b29 100644
--- a/qampy/impairments.py
+++ b/qampy/impairments.py
@@ -165,7 +165,7 @@ def simulate_transmission(sig, snr=None, freq_off=None, lwdth=None, dgd=None, th
     if modal_delay is not None:
         sig = add_modal_delay(sig, modal_delay)
     if dispersion is not None:
-        sig = add_dispersion(sig, D, 1)
+        sig = add_dispersion(sig, dispersion, 1)
     if dgd is not None:
         sig = apply_PMD(sig, theta, dgd)
     return sig
-- 
2.43.0


From 192f986ebc8aef9c4843de20175cfd4a309063e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 041/116] fix: quantize_signal rescaled the array of the caller
 and rounded up to the next level

---
 qampy/core/impairments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 06159c5..a369fe7 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -347,16 +347,16 @@ def quantize_signal(sig, nbits=6, rescale=True, re_normalize=True):
 
     # Rescale to
     if rescale:
-        for pol in range(npols):
-            sig[pol] /= np.abs(sig[pol]).max()
+        sig = sig / np.abs(sig).max(axis=-1, keepdims=True) # a new array, sig belongs to the caller
 
 
     levels = np.linspace(-1,1,2**(nbits))
+    levels_dec = (levels[:-1] + levels[1:])/2
 
     sig_out = np.zeros(sig.shape, dtype=sig.dtype)
     for pol in range(npols):
-        sig_quant_re = levels[np.digitize(sig[pol].real,levels[:-1],right=False)]
-        sig_quant_im = levels[np.digitize(sig[pol].imag,levels[:-1],right=False)]
+        sig_quant_re = levels[np.digitize(sig[pol].real,levels_dec,right=False)]
+        sig_quant_im = levels[np.digitize(sig[pol].imag,levels_dec,right=False)]
         sig_out[pol] = sig_quant_re + 1j*sig_quant_im
 
     if not np.iscomplexobj(sig):
-- 
2.43.0


From f066846d36945c4d66630044ae8edb795a933d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 042/116] fix: quantize_signal_New without rescale_in quantised
 zeros, scaled modes differently and failed for plain arrays

---
 qampy/core/impairments.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index a369fe7..3964f57 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -387,7 +387,7 @@ def quantize_signal_New(sig_in, nbits=6, rescale_in=True, rescale_out=True):
     npols = sig_in.shape[0]
 
     # Rescale to
-    sig = np.zeros((npols, sig_in.shape[1]), dtype=sig_in.dtype)
+    sig = sig_in
     if rescale_in:
         sig = rescale_signal(sig_in, swing=1)
 
@@ -407,10 +407,13 @@ def quantize_signal_New(sig_in, nbits=6, rescale_in=True, rescale_out=True):
         sig_out = sig_out.real
 
     if rescale_out:
-        max_swing = np.maximum(abs(sig_in.real).max(), abs(sig_in.imag).max())
-        sig_out = sig_out * max_swing
+        max_swing = np.maximum(abs(sig_in.real).max(axis=-1, keepdims=True), abs(sig_in.imag).max(axis=-1, keepdims=True))
+        sig_out = sig_out * np.asarray(max_swing)
 
-    return sig_in.recreate_from_np_array(sig_out)
+    try:
+        return sig_in.recreate_from_np_array(sig_out)
+    except AttributeError:
+        return sig_out
 
 def modulator_response(rfsig, dcbias=1, gfactr=1, cfactr=0, dcbias_out=0.5, gfactr_out=1):
     """
-- 
2.43.0


From 0ec90e8438bfe94202edceb8b7b5809a88646905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 043/116] fix: apply_DAC_filter with a measured response passed
 the signal as dtype

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 3964f57..036dc52 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -546,7 +546,7 @@ def apply_DAC_filter(sig, fs, cutoff=18e9, fn=None, ch=1):
     if fn is None:
         filter_sig = filter_signal(sig, fs, cutoff, ftype="bessel", order=2)
     else:
-        H_dac = load_dac_response(fn, fs, sig.shape[-1], ch=ch).astype(sig) # should check if response is real
+        H_dac = load_dac_response(fn, fs, sig.shape[-1], ch=ch).astype(sig.dtype) # should check if response is real
         sigf = fft.fft(sig)
         filter_sig = fft.ifft(sigf * H_dac)
     return filter_sig
-- 
2.43.0


From fba50a15f37762782dc82200d02836f3dc62daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 044/116] fix: gauss and exp filters permuted odd numbers of
 modes and shifted the spectrum of odd lengths

---
 qampy/core/filter.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 2178ab4..859630a 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -108,24 +108,24 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
     """
     sig = np.atleast_2d(signal)
     if ftype == "gauss":
-        f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
+        f = scifft.fftshift(scifft.fftfreq(sig.shape[1], 1/fs)).astype(sig.dtype)
         w = cutoff/(2*np.sqrt(2*np.log(2))) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-f**2/(2*w**2))
-        fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(sig, axes=-1), axis=-1), axes=-1) * g
+        fsignal = scifft.fftshift(scifft.fft(scifft.ifftshift(sig, axes=-1), axis=-1), axes=-1) * g
         if signal.ndim == 1:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal))).flatten()
+            return scifft.fftshift(scifft.ifft(scifft.ifftshift(fsignal, axes=-1), axis=-1), axes=-1).flatten()
         else:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal)))
+            return scifft.fftshift(scifft.ifft(scifft.ifftshift(fsignal, axes=-1), axis=-1), axes=-1)
     if ftype == "exp":
-        f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
+        f = scifft.fftshift(scifft.fftfreq(sig.shape[1], 1/fs)).astype(sig.dtype)
         w = cutoff/(np.sqrt(2*np.log(2)**2)) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-np.sqrt((f**2/(2*w**2))))
         g /= g.max()
-        fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(signal))) * g
+        fsignal = scifft.fftshift(scifft.fft(scifft.ifftshift(sig, axes=-1), axis=-1), axes=-1) * g
         if signal.ndim == 1:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal))).flatten()
+            return scifft.fftshift(scifft.ifft(scifft.ifftshift(fsignal, axes=-1), axis=-1), axes=-1).flatten()
         else:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal)))
+            return scifft.fftshift(scifft.ifft(scifft.ifftshift(fsignal, axes=-1), axis=-1), axes=-1)
     Wn = cutoff*2*np.pi if analog else cutoff
     frmt = "ba" if analog else "sos"
     fs_in = None if analog else fs
-- 
2.43.0


From d2395a0bc43fafb73e6e2bafe8838219274ebc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 045/116] fix: pre_filter_wdm used an undefined variable

---
 qampy/core/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 859630a..4f9a6db 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -72,7 +72,7 @@ def pre_filter_wdm(signal, bw, os,center_freq = 0):
     """
     # Prepare signal
     N = len(signal)
-    h = np.zeros(N, dtype=sig.real.dtype)
+    h = np.zeros(N, dtype=signal.real.dtype)
     freq_axis = scifft.fftfreq(N, 1 / os)
 
     # Create filter window
-- 
2.43.0


From e9a1cac6f8486757d595c84180f48a7caf1f8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 046/116] fix: spectral domain pulse shaping of several modes
 used the number of modes as length

---
 qampy/core/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 4f9a6db..f2118ba 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -167,7 +167,7 @@ def _rrcos_pulseshaping_freq(sig, fs, T, beta):
     sign_out : array_like
         filtered signal in time domain
     """
-    f = scifft.fftfreq(sig.shape[0])*fs
+    f = scifft.fftfreq(sig.shape[-1])*fs
     nyq_fil = rrcos_freq(f, beta, T)
     nyq_fil /= nyq_fil.max()
     sig_f = scifft.fft(sig)
-- 
2.43.0


From a2ace7f424983ac070b58e2328911e63bab74e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 047/116] fix: rrcos_pulseshaping without T used the symbol
 rate instead of its inverse

---
 qampy/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/filtering.py b/qampy/filtering.py
index 4bcfd19..bb207a5 100644
--- a/qampy/filtering.py
+++ b/qampy/filtering.py
@@ -112,7 +112,7 @@ def rrcos_pulseshaping(sig, beta, T=None):
         filtered signal in time domain
     """
     if T is None:
-        T = sig.fb
+        T = 1/sig.fb
     sig_out = core.filter.rrcos_pulseshaping(sig, sig.fs, T, beta)
     return sig.recreate_from_np_array(sig_out)
 
-- 
2.43.0


From d87235a9a9bffc18f2f87922484af29468a53d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 048/116] fix: comp_IQ_inbalance altered the signal of the
 caller and mixed the imbalances of the modes

---
 qampy/core/analog_frontend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 9454f04..787a076 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -34,17 +34,17 @@ def comp_IQ_inbalance(signal):
     """
     
     # Center signal around a mean of 0
-    signal -= np.mean(signal)
+    signal = signal - np.mean(signal, axis=-1, keepdims=True)
     I = signal.real
     Q = signal.imag
 
     # phase balance
-    mon_signal = np.sum(I*Q)/np.sum(I**2)
+    mon_signal = np.sum(I*Q, axis=-1, keepdims=True)/np.sum(I**2, axis=-1, keepdims=True)
     phase_inbalance = np.arcsin(-mon_signal)
     Q_balcd = (Q + np.sin(phase_inbalance)*I)/np.cos(phase_inbalance)
     
     # Amplidue imbalance
-    amp_inbalance = np.sum(I**2)/np.sum(Q_balcd**2)
+    amp_inbalance = np.sum(I**2, axis=-1, keepdims=True)/np.sum(Q_balcd**2, axis=-1, keepdims=True)
 
     # Build output
     comp_singal = I + 1.j * (Q_balcd * np.sqrt(amp_inbalance))
-- 
2.43.0


From 7dd7482a07946ad2c14fe0cd779d6bea6a8c1f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 049/116] fix: comp_rf_delay used the sampling rate as sampling
 interval

---
 qampy/core/analog_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 787a076..9d8063e 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -75,7 +75,7 @@ def comp_rf_delay(signal, delay, sampling_rate=50e9 ):
 
     sig = np.atleast_2d(signal)
     # Frequency base vector
-    freqVector = np.fft.fftfreq(sig.shape[1], sampling_rate/2)
+    freqVector = np.fft.fftfreq(sig.shape[1], 1/sampling_rate)
     
     # Phase-delayed version
     sig_out = np.empty_like(sig)
-- 
2.43.0


From 5d9f6e760e63e7e3042e071f4bd5cf44295125b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 050/116] fix: orthonormalize_signal normalised Q by its power
 before orthogonalisation

---
 qampy/core/analog_frontend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 9d8063e..a24f187 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -119,12 +119,12 @@ def orthonormalize_signal(E, os=1):
 
         # Calculate scalar products
         mean_pow_inphase = np.mean(real_out**2)
-        mean_pow_quadphase = np.mean(tmp_imag**2)
         mean_pow_imb = np.mean(real_out*tmp_imag)
 
         # Output, Imag orthogonal to Real part of signal
-        sig_out = real_out / np.sqrt(mean_pow_inphase) +\
-                                    1j*(tmp_imag - mean_pow_imb * real_out / mean_pow_inphase) / np.sqrt(mean_pow_quadphase)
+        tmp_imag = tmp_imag - mean_pow_imb * real_out / mean_pow_inphase
+        mean_pow_quadphase = np.mean(tmp_imag**2)
+        sig_out = real_out / np.sqrt(mean_pow_inphase) + 1j*tmp_imag / np.sqrt(mean_pow_quadphase)
         # Final total normalization to ensure IQ-power equals 1
         E_out[l,:] = sig_out - np.mean(sig_out[::os])
         E_out[l,:] = E_out[l,:] / np.sqrt(np.mean(np.abs(E_out[l,::os])**2))
-- 
2.43.0


From bb57cfc7e7d7c5a0cce1b2ed58073f7d8e300724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 051/116] fix: rescale_signal failed for 1D signals and
 returned double precision for single precision

---
 qampy/helpers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index c3c8c85..a8fc67f 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -99,13 +99,14 @@ def rescale_signal(E, swing=1):
     """
     Rescale the (1-pol) signal to (-swing, swing).
     """
-    swing = np.atleast_1d(swing)
+    swing = np.atleast_1d(swing).astype(E.real.dtype)
+    if E.ndim > 1:
+        swing = swing[:, np.newaxis]
     if np.iscomplexobj(E):
-        scale_factor = np.maximum(np.max(abs(E.real), axis=-1), np.max(abs(E.imag), axis=-1))
-        return E / scale_factor[:, np.newaxis] * swing[:,np.newaxis]
+        scale_factor = np.maximum(np.max(abs(E.real), axis=-1, keepdims=True), np.max(abs(E.imag), axis=-1, keepdims=True))
     else:
-        scale_factor = np.max(abs(E), axis=-1)
-        return E / scale_factor[:, np.newaxis] * swing[:,np.newaxis]
+        scale_factor = np.max(abs(E), axis=-1, keepdims=True)
+    return E / scale_factor * swing
 
 def set_mid_and_resale(E,mid_pos=0,swing=1):
     """
-- 
2.43.0


From cf0ea8b8f1d9e47baf69b551fd3653105cfe08e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 052/116] fix: dump_edges of no samples returned an empty
 signal

---
 qampy/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index a8fc67f..621ab4e 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -79,9 +79,9 @@ def dump_edges(E, N):
     Remove N samples from the front and end of the input field.
     """
     if E.ndim > 1:
-        return E[:,N:-N]
+        return E[:,N:E.shape[-1]-N]
     else:
-        return E[N:-N]
+        return E[N:E.shape[-1]-N]
 
 def set_mid_point(E, mid_pos=0):
     """
-- 
2.43.0


From 26f7563cf57fdf596b76c14e801c1ec1e5211c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 053/116] fix: normalise_and_center_pil failed for 1D signals

---
 qampy/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index 621ab4e..d370730 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -60,7 +60,7 @@ def normalise_and_center_pil(sig, idx_pil):
     """
     Normalise and center the input field only based on pilot symbols, by calculating the mean power for each polarisation separate and dividing by its square-root
     """
-    sig_pil = sig[:, idx_pil]
+    sig_pil = sig[..., idx_pil]
     if sig.ndim > 1:
         ct_fac = - np.mean(sig_pil, axis=-1)[:, np.newaxis]
         sig_pil = sig_pil + ct_fac
-- 
2.43.0


From 871de842018ed0ce0a3a3aca5e7fc37b943ddd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 054/116] fix: find_pilot_idx marked two samples per pilot
 whatever the oversampling

---
 qampy/helpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index d370730..1e66d6c 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -137,8 +137,7 @@ def find_pilot_idx(nframe=2, frame_len = 2 ** 16, os_rate=2, pilot_seq_len=1024,
     for i in range(nframe):
         idx_temp = frame_len * os_rate * i
         idx_pil_seq = idx_pil_seq | ((idx_temp <= idx_os) & (idx_os < idx_temp + pilot_seq_len * os_rate))
-        idx_pil_ph = idx_pil_ph | ((((idx_os - pilot_seq_len * os_rate - idx_temp) % (pilot_ins_rat * os_rate) == 0) | (
-                    (idx_os - pilot_seq_len * os_rate - idx_temp) % (pilot_ins_rat * os_rate) == 1)) & (
+        idx_pil_ph = idx_pil_ph | (((idx_os - pilot_seq_len * os_rate - idx_temp) % (pilot_ins_rat * os_rate) < os_rate) & (
                                                idx_os - pilot_seq_len * os_rate - idx_temp >= 0) & (
                                                idx_os < idx_temp + frame_len * os_rate))
     idx_pil = idx_pil_seq | idx_pil_ph
-- 
2.43.0


From c60de309732418373e44c3d03f10ea6e6ba9d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 055/116] fix: rolling_window with wrap failed for 2D data and
 read beyond short data

---
 qampy/core/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index a07175b..060258d 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -187,9 +187,8 @@ def rolling_window(data, size, wrap=False):
             [7, 8, 9]])
     """
     if wrap:
-        dt = size - 1
         shape = data.shape[:-1] + (data.shape[-1], size)
-        data = np.hstack([data, data[:dt]])
+        data = np.take(data, np.arange(data.shape[-1] + size - 1), axis=-1, mode="wrap")
     else:
         shape = data.shape[:-1] + (data.shape[-1] - size + 1, size)
     strides = data.strides + (data.strides[-1], )
-- 
2.43.0


From 4df61837c9bd5085a93cc23b94f6a528699de731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 056/116] fix: convert_iqtosinglebitstream failed and
 interleaved the wrong bits

---
 qampy/core/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 060258d..51dfb3f 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -225,8 +225,8 @@ def convert_iqtosinglebitstream(idat, qdat, nbits):
     else:
         N = [nbits//2, nbits//2]
     idat_n = idat[:len(idat)-(len(idat)%N[0])]
-    idat_n = idat_n.reshape(N[0], len(idat_n)/N[0])
+    idat_n = idat_n.reshape(len(idat_n)//N[0], N[0])
     qdat_n = qdat[:len(qdat)-(len(qdat)%N[1])]
-    qdat_n = qdat_n.reshape(N[1], len(qdat_n)/N[1])
-    l = min(len(idat_n[0]), len(qdat_n[0]))
+    qdat_n = qdat_n.reshape(len(qdat_n)//N[1], N[1])
+    l = min(len(idat_n), len(qdat_n))
     return np.hstack([idat_n[:l], qdat_n[:l]]).flatten()
-- 
2.43.0


From 4d64aa15ff374ac0a5044b8972c56c918108bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 057/116] fix: CDcomp applied the dispersion instead of
 compensating it, on a grid that missed the FFT frequencies

---
 qampy/core/equalisation/equalisation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 6e938a2..9c8eaf2 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -667,10 +667,10 @@ def CDcomp(E, fs, N, L, D, wl):
     #H *= H
     #H *= D * wl**2 * L / (c * N**2)
 
-    omega = np.pi * fs * np.linspace(-1,1,N,dtype = complex)
+    omega = 2 * np.pi * np.fft.fftshift(np.fft.fftfreq(N, 1/fs)).astype(complex)
     beta2 = D * wl**2 / (c * 2 * np.pi)
 
-    H = np.exp(-.5j * omega**2 * beta2 * L )
+    H = np.exp(.5j * omega**2 * beta2 * L )
     #H1 = H
     #H = np.fft.fftshift(H)
     if N == samp:
@@ -688,7 +688,7 @@ def CDcomp(E, fs, N, L, D, wl):
             sigB = np.zeros(N, dtype=np.complex128)
             sigB[zp:-zp] = E[i * n:i * n + n]
             sigB = np.fft.fft(sigB)
-            sigB *= H
+            sigB *= np.fft.ifftshift(H)
             sigB = np.fft.ifft(sigB)
             sB[i, :] = sigB
             sigEQ[i * n:i * n + n + 2 * zp] = sigEQ[i * n:i * n + n + 2 *
-- 
2.43.0


From 94e805e46300f093d613f1a9841f8f5bbabad29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 058/116] fix: pre_filter rejected the whole spectrum for a
 rejected bandwidth given as fraction

---
 qampy/core/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index f2118ba..c042780 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -41,7 +41,8 @@ def pre_filter(signal, bw):
     sig = np.atleast_2d(signal)
     N = sig.shape
     h = np.zeros(N, dtype=sig.real.dtype)
-    h[:,int(N[1]/(bw/2)):-int(N[1]/(bw/2))] = 1
+    n = int(N[1]*bw/2)
+    h[:,n:N[1]-n] = 1
     s = scifft.ifft(scifft.ifftshift(scifft.fftshift(scifft.fft(sig, axis=-1), axes=-1)*h, axes=-1), axis=-1)
     if signal.ndim < 2:
         return s.flatten()
-- 
2.43.0


From 773b223f71a810e23b14a4091139d23198f05720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 059/116] fix: rrcos_time replaced regular values next to the
 singularities

---
 qampy/core/special_fcts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/special_fcts.py b/qampy/core/special_fcts.py
index eb3c6e5..600f65d 100644
--- a/qampy/core/special_fcts.py
+++ b/qampy/core/special_fcts.py
@@ -195,7 +195,7 @@ def rrcos_time(t, beta, T):
     """
     with np.errstate(divide='ignore', invalid='ignore'):
         rrcos = 1/T*((np.sin(np.pi*t/T*(1-beta)) +  4*beta*t/T*np.cos(np.pi*t/T*(1+beta)))/(np.pi*t/T*(1-(4*beta*t/T)**2)))
-        eps = abs(t[0]-t[1])/4
+        eps = abs(t[0]-t[1])*1e-6 # only where the formula is singular
         idx1 = np.where(abs(t)<eps)
         rrcos[idx1] = 1/T*(1+beta*(4/np.pi-1))
         idx2 = np.where(abs(abs(t)-abs(T/(4*beta)))<eps)
-- 
2.43.0


From 8791e578eae42e67a8a3c1cd5da2ebba8284c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 060/116] fix: rcos_freq divided by zero without roll-off

---
 qampy/core/special_fcts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/core/special_fcts.py b/qampy/core/special_fcts.py
index 600f65d..de3e84b 100644
--- a/qampy/core/special_fcts.py
+++ b/qampy/core/special_fcts.py
@@ -135,6 +135,8 @@ def rcos_freq(f, beta, T):
     """Frequency response of a raised cosine filter with a given roll-off factor and width """
     rc = np.zeros(f.shape[0], dtype=f.dtype)
     rc[np.where(np.abs(f) <= (1 - beta) / (2 * T))] = T
+    if beta == 0:
+        return rc
     idx = np.where((np.abs(f) > (1 - beta) / (2 * T)) & (np.abs(f) <= (
         1 + beta) / (2 * T)))
     rc[idx] = T / 2 * (1 + np.cos(np.pi * T / beta *
-- 
2.43.0


From f42d58a4c2bd4c376f6cdbc576d16b5f0ca3686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 061/116] fix: rcos_time was not finite at T/(2 beta)

---
 qampy/core/special_fcts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/special_fcts.py b/qampy/core/special_fcts.py
index de3e84b..ab1fc0c 100644
--- a/qampy/core/special_fcts.py
+++ b/qampy/core/special_fcts.py
@@ -127,8 +127,9 @@ def sech(x, A, x0, w):
 
 def rcos_time(t, beta, T):
     """Time response of a raised cosine filter with a given roll-off factor and width """
-    return np.sinc(t / T) * np.cos(t / T * np.pi * beta) / (1 - 4 *
-                                                            (beta * t / T)**2)
+    # cos(pi x)/(1 - 4 x**2) = pi/4*(sinc(x + 1/2) + sinc(x - 1/2)) is finite everywhere
+    x = beta * t / T
+    return np.sinc(t / T) * np.pi / 4 * (np.sinc(x + 0.5) + np.sinc(x - 0.5))
 
 
 def rcos_freq(f, beta, T):
-- 
2.43.0


From b7a410a970a8c0aab9b6e98676ad6761247be41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 062/116] fix: analog filters dropped the imaginary part of the
 signal

---
 qampy/core/filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index c042780..081e83b 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -138,7 +138,10 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
         t = np.arange(0, sig.shape[1])*1/fs
         sig2 = np.zeros_like(sig)
         for i in range(sig.shape[0]):
-            to, yo, xo = scisig.lsim(system, sig[i], t)
+            # lsim only keeps the real part of its input
+            to, yo, xo = scisig.lsim(system, sig[i].real, t)
+            if np.iscomplexobj(sig):
+                yo = yo + 1j * scisig.lsim(system, sig[i].imag, t)[1]
             sig2[i] = yo.astype(sig.dtype)
     else:
         sig2 = scisig.sosfilt(system.astype(sig.dtype), sig, axis=-1)
-- 
2.43.0


From 5f98e7c82c0d140bcd74d1b65b4a7875670564ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 063/116] fix: rrcos_time divided by zero without roll-off

---
 qampy/core/special_fcts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/core/special_fcts.py b/qampy/core/special_fcts.py
index ab1fc0c..71118b3 100644
--- a/qampy/core/special_fcts.py
+++ b/qampy/core/special_fcts.py
@@ -201,6 +201,8 @@ def rrcos_time(t, beta, T):
         eps = abs(t[0]-t[1])*1e-6 # only where the formula is singular
         idx1 = np.where(abs(t)<eps)
         rrcos[idx1] = 1/T*(1+beta*(4/np.pi-1))
+        if beta == 0:
+            return rrcos
         idx2 = np.where(abs(abs(t)-abs(T/(4*beta)))<eps)
         rrcos[idx2] = beta/(T*np.sqrt(2))*((1+2/np.pi)*np.sin(np.pi/(4*beta))+(1-2/np.pi)*np.cos(np.pi/(4*beta)))
     return rrcos
-- 
2.43.0


From a8e572a043fee9c42e4788ea814b760c6c0f10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 064/116] fix: clipper returned double precision for single
 precision and two dimensions for one

---
 qampy/core/digital_pre_compensation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qampy/core/digital_pre_compensation.py b/qampy/core/digital_pre_compensation.py
index 1c41b23..5cffb39 100644
--- a/qampy/core/digital_pre_compensation.py
+++ b/qampy/core/digital_pre_compensation.py
@@ -31,9 +31,8 @@ def clipper(sig, clipping_level):
     """
     Clip signal to the range (-clipping_level, clipping_level).
     """
-    sig_2d = np.atleast_2d(sig)
-    sig_clip_re = np.sign(sig.real) * np.minimum(abs(sig_2d.real), clipping_level*np.ones((1, sig_2d.shape[1])))
-    sig_clip_im = np.sign(sig.imag) * np.minimum(abs(sig_2d.imag), clipping_level*np.ones((1, sig_2d.shape[1])))
+    sig_clip_re = np.clip(sig.real, -clipping_level, clipping_level)
+    sig_clip_im = np.clip(sig.imag, -clipping_level, clipping_level)
 
     return sig_clip_re + 1j* sig_clip_im
 
-- 
2.43.0


From e3c663edfbf04596c360d7049b4dd34af144aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 065/116] fix: segment_axis copies non-contiguous arrays as
 intended instead of failing

---
 qampy/core/segmentaxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/core/segmentaxis.py b/qampy/core/segmentaxis.py
index 1d3c6e2..37fd089 100644
--- a/qampy/core/segmentaxis.py
+++ b/qampy/core/segmentaxis.py
@@ -114,10 +114,11 @@ def segment_axis(a, length, overlap=0, axis=None, end='cut', endvalue=0):
             shape=newshape,
             buffer=a,
             dtype=a.dtype)
-    except TypeError:
+    except (TypeError, ValueError):
         warnings.warn("Problem with ndarray creation forces copy.")
         a = a.copy()
         # Shape doesn't change but strides does
+        s = a.strides[axis]
         newstrides = a.strides[:axis] + (
             (length - overlap) * s, s) + a.strides[axis + 1:]
         return N.ndarray.__new__(
-- 
2.43.0


From 090b27cedb308e67a4a8029ab1ad13de770ce8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 066/116] fix: PRBSBits misaligned orders and seeds for short
 lists and could pick the all-zero seed

---
 qampy/signals.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 8b88ea0..5c6068e 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -112,22 +112,23 @@ class PRBSBits(np.ndarray):
             tuple of ints for the PRBS order per mode
     """
     def __new__(cls, N, nmodes=1, seed=[None, None], order=[15, 23]):
-        if len(order) < nmodes:
-            warnings.warn("PRBSorder is not given for all dimensions, picking random orders and seeds")
-            order_n = []
-            seed_n = []
+        if len(order) < nmodes or len(seed) < nmodes:
+            warnings.warn("PRBSorder or seed is not given for all dimensions, picking random orders and seeds")
+            order_n = list(order[:nmodes])
+            seed_n = list(seed[:nmodes])
             orders = [15, 23]
             for i in range(nmodes):
-                try:
-                    order_n.append(order[i])
-                    seed_n.append(seed[i])
-                except IndexError:
-                    o = np.random.choice(orders)
-                    order_n.append(o)
-                    s = np.random.randint(0, 2 ** o)
-                    seed_n.append(s)
-                order = order_n
-                seed = seed_n
+                new_order = i >= len(order_n)
+                if new_order:
+                    order_n.append(np.random.choice(orders))
+                if i >= len(seed_n):
+                    seed_n.append(None)
+                elif not new_order:
+                    continue
+                if seed_n[i] is None: # a zero seed would only give zeros
+                    seed_n[i] = np.random.randint(1, 2 ** int(order_n[i]))
+            order = order_n
+            seed = seed_n
         bits = np.empty((nmodes, N), dtype=bool)
         for i in range(nmodes):
             bits[i][:] = make_prbs_extXOR(order[i], N, seed[i])
-- 
2.43.0


From 2c4fc80090ac62079831e16ce66c233df781305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 067/116] fix: make_prbs_intXOR called the shift register
 without its length

---
 qampy/core/prbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/prbs.py b/qampy/core/prbs.py
index acfb793..5f4ac5b 100644
--- a/qampy/core/prbs.py
+++ b/qampy/core/prbs.py
@@ -91,6 +91,6 @@ def make_prbs_intXOR(order, nbits, seed=None):
             seed = utils.bool2bin(seed)
         except TypeError:
             seed = seed
-    out = prbs_int(seed, masks[order], nbits)
+    out = prbs_int(seed, masks[order], order, int(nbits))
     return out.astype(bool)
 
-- 
2.43.0


From 2cd6f5c57191d0500c0f073e847d93c33a807161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 068/116] fix: cal_lut table was too small for alphabets with
 more quadrature than in-phase levels

---
 qampy/core/digital_pre_compensation.py | 2 +-
 qampy/core/pythran_dsp.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/digital_pre_compensation.py b/qampy/core/digital_pre_compensation.py
index 5cffb39..dd7825f 100644
--- a/qampy/core/digital_pre_compensation.py
+++ b/qampy/core/digital_pre_compensation.py
@@ -171,7 +171,7 @@ def cal_lut(tx_sig, rx_sig, ref_sym, mem_len=3, idx_data=None, real_ptrns=True):
     if real_ptrns:
         ref_sym_I = np.unique(ref_sym.real)
         ref_sym_Q = np.unique(ref_sym.imag)
-        M = ref_sym_I.size
+        M = max(ref_sym_I.size, ref_sym_Q.size)
         N = int(M**mem_len)
         idx_I = find_sym_patterns(tx_sig.real, ref_sym_I, mem_len)
         idx_Q = find_sym_patterns(tx_sig.imag, ref_sym_Q, mem_len)
diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index 4f48bba..6fcf681 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -218,8 +218,8 @@ def cal_lut_avg(err, idx_I, idx_Q,  N):
             average error for all patterns. Patterns that do not appear in idx_I or idx_Q will be 0.
     """
     L = err.size
-    assert idx_I.shape[0] > L
-    assert idx_Q.shape[0] > L
+    assert idx_I.shape[0] >= L
+    assert idx_Q.shape[0] >= L
     err_avg_I = np.zeros(N, dtype=err.real.dtype)
     err_avg_Q = np.zeros(N, dtype=err.real.dtype)
     nI = np.zeros(N, dtype=int)
-- 
2.43.0


From 7d3647efe8a80fee581794d4ced3fa6a98624a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 069/116] fix: log-likelihood ratios and GMI became infinite or
 NaN at high SNR, minmax distances were capped

---
 qampy/core/pythran_dsp.py | 36 +++++++++++++++++++++---------------
 qampy/signals.py          |  2 +-
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index 6fcf681..e8e1170 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -81,9 +81,28 @@ def bps(E, testangles, symbols, N):
             dists[i, j] = dtmp
     return select_angle_index(dists, 2*N)
 
+def find_minmax(btx, rx):
+    tmp = abs(btx[0,1] - rx)**2
+    tmp2 = abs(btx[0,0] - rx)**2
+    k = btx.shape[0]
+    for l in range(1, k):
+        tmp3 = abs(btx[l,1] - rx)**2
+        tmp4 = abs(btx[l,0] - rx)**2
+        if tmp3 < tmp:
+            tmp = tmp3
+        if tmp4 < tmp2:
+           tmp2 = tmp4
+    return tmp, tmp2
+
 def cal_l_values(btx, rx, snr):
-    tmp = np.sum(np.exp(-snr*abs(btx - rx)**2), axis=0)
-    return np.log(tmp[1]) - np.log(tmp[0])
+    # take the largest terms out of the sums, because all exponentials can underflow
+    d1, d0 = find_minmax(btx, rx)
+    s1 = 0.
+    s0 = 0.
+    for l in range(btx.shape[0]):
+        s1 += np.exp(-snr*(abs(btx[l,1] - rx)**2 - d1))
+        s0 += np.exp(-snr*(abs(btx[l,0] - rx)**2 - d0))
+    return np.log(s1) - np.log(s0) + snr*(d0 - d1)
 
 #pythran export soft_l_value_demapper(complex128[], int, float64, complex128[][][])
 #pythran export soft_l_value_demapper(complex128[], int, float32, complex128[][][])
@@ -100,19 +119,6 @@ def soft_l_value_demapper(rx_symbs, num_bits, snr, bits_map):
             L_values[symb, bit] = cal_l_values(bits_map[bit,:,:], rx_symbs[symb], snr)
     return L_values
 
-def find_minmax(btx, rx):
-    tmp = 10000.
-    tmp2 = 10000.
-    k = btx.shape[0]
-    for l in range(k):
-        tmp3 = abs(btx[l,1] - rx)**2
-        tmp4 = abs(btx[l,0] - rx)**2
-        if tmp3 < tmp:
-            tmp = tmp3
-        if tmp4 < tmp2:
-           tmp2 = tmp4
-    return tmp, tmp2
-
 #pythran export soft_l_value_demapper_minmax(complex128[], int, float64, complex128[][][])
 #pythran export soft_l_value_demapper_minmax(complex64[], int, float32, complex64[][][])
 def soft_l_value_demapper_minmax(rx_symbs, num_bits, snr, bits_map):
diff --git a/qampy/signals.py b/qampy/signals.py
index 5c6068e..c061c8c 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -504,7 +504,7 @@ class SignalBase(np.ndarray):
             else:
                 l_values = soft_l_value_demapper(rx[mode], self.Nbits, snr[mode], self._bitmap_mtx)
             # GMI per bit
-            GMI_per_bit[mode, :] = 1 - np.mean(np.log2(1 + np.exp(((-1)**bits[mode]) * l_values)), axis=0)
+            GMI_per_bit[mode, :] = 1 - np.mean(np.logaddexp2(0, ((-1)**bits[mode]) * l_values/np.log(2)), axis=0)
         GMI = np.sum(GMI_per_bit, axis=-1)
         return GMI, GMI_per_bit
 
-- 
2.43.0


From ddbe7feaebd53c20a90c358d4781cfc468f547a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 070/116] fix: cal_mi and minmax cal_gmi rejected single
 precision signals

---
 qampy/core/pythran_dsp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index e8e1170..c5810a5 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -121,6 +121,7 @@ def soft_l_value_demapper(rx_symbs, num_bits, snr, bits_map):
 
 #pythran export soft_l_value_demapper_minmax(complex128[], int, float64, complex128[][][])
 #pythran export soft_l_value_demapper_minmax(complex64[], int, float32, complex64[][][])
+#pythran export soft_l_value_demapper_minmax(complex64[], int, float64, complex64[][][])
 def soft_l_value_demapper_minmax(rx_symbs, num_bits, snr, bits_map):
     assert bits_map.shape[0] >= num_bits
     N = rx_symbs.shape[0]
@@ -289,6 +290,7 @@ def estimate_snr(signal_rx, symbols_tx, gray_symbols):
     return snr, in_pow, N0
 
 #pythran export cal_mi_mc(complex128[], complex128[], float64):
+#pythran export cal_mi_mc(complex64[], complex64[], float64):
 def cal_mi_mc(noise, symbols, N0):
     M = symbols.size
     L = noise.size
@@ -303,6 +305,7 @@ def cal_mi_mc(noise, symbols, N0):
     return np.log2(M) - mi_out/M/L
 
 #pythran export cal_mi_mc_fast(complex128[], complex128[], complex128[], float64):
+#pythran export cal_mi_mc_fast(complex64[], complex64[], complex64[], float64):
 def cal_mi_mc_fast(sig, sig_tx, symbols, N0):
     M = symbols.size
     L = sig.size
-- 
2.43.0


From 7f56f77c194ca4f5ca08ed972e535b48e16fa987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 071/116] fix: estimate_snr was NaN if a constellation point
 does not occur

---
 qampy/core/pythran_dsp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index c5810a5..33bcd01 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -280,6 +280,8 @@ def estimate_snr(signal_rx, symbols_tx, gray_symbols):
     for ind in range(N):
         sel_symbs = signal_rx[symbols_tx == gray_symbols[ind]]
         K = sel_symbs.shape[0]
+        if K == 0: # the symbol does not occur
+            continue
         Px = K/L
         mu = np.mean(sel_symbs)
         #dif = sel_symbs-mu
-- 
2.43.0


From f8eb1b4c2a924347d086542604131ab495938cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 072/116] fix: mutual information became infinite when a single
 sample is far off

---
 qampy/core/pythran_dsp.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index 33bcd01..67c4676 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -291,6 +291,17 @@ def estimate_snr(signal_rx, symbols_tx, gray_symbols):
     snr = in_pow/N0
     return snr, in_pow, N0
 
+def cal_mi_loss(rx, tx, symbols, N0):
+    # the largest term is taken out of the sum, because the exponentials can overflow
+    M = symbols.size
+    dmin = abs(rx-symbols[0])**2
+    for j in range(1, M):
+        dmin = min(dmin, abs(rx-symbols[j])**2)
+    tmp = 0.
+    for j in range(M):
+        tmp += np.exp(-(abs(rx-symbols[j])**2 - dmin)/N0)
+    return np.log2(tmp) + (abs(rx-tx)**2 - dmin)/N0/np.log(2)
+
 #pythran export cal_mi_mc(complex128[], complex128[], float64):
 #pythran export cal_mi_mc(complex64[], complex64[], float64):
 def cal_mi_mc(noise, symbols, N0):
@@ -300,10 +311,7 @@ def cal_mi_mc(noise, symbols, N0):
     #omp parallel for reduction(+:mi_out) collapse(2)
     for i in range(M):
         for l in range(L):
-            tmp = 0
-            for j in range(M):
-                tmp += np.exp(-(abs(symbols[i] - symbols[j])**2 + 2*np.real((symbols[i]-symbols[j])*noise[l]))/N0)
-            mi_out += np.log2(tmp)
+            mi_out += cal_mi_loss(symbols[i] + np.conj(noise[l]), symbols[i], symbols, N0)
     return np.log2(M) - mi_out/M/L
 
 #pythran export cal_mi_mc_fast(complex128[], complex128[], complex128[], float64):
@@ -314,8 +322,5 @@ def cal_mi_mc_fast(sig, sig_tx, symbols, N0):
     mi_out = 0
     #omp parallel for reduction(+:mi_out)
     for l in range(L):
-        tmp = 0
-        for j in range(M):
-            tmp += np.exp(-(abs(sig[l]-symbols[j])**2 - abs(sig[l]-sig_tx[l])**2)/N0)
-        mi_out += np.log2(tmp)
+        mi_out += cal_mi_loss(sig[l], sig_tx[l], symbols, N0)
     return np.log2(M) - mi_out/L
-- 
2.43.0


From 80cefb416d7a19333397fe9979726474144f8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 073/116] fix: from_symbol_array counts symbols that differ
 only by rounding once

The alphabet scale was the mean power of np.unique(symbs). Symbols of modes that
were normalised separately differ by rounding, so that some points were counted
several times and the alphabet came out up to 10% too large or small.
---
 qampy/signals.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index c061c8c..323e048 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -761,10 +761,13 @@ class SignalQAMGrayCoded(SignalBase):
             M = np.unique(symbs).shape[0]
         if dtype is None:
             dtype = symbs.dtype
-        P = (abs(np.unique(symbs))**2).mean()
+        # values that differ only by rounding are the same symbol
+        vals = np.asarray(symbs).flatten()
+        _, idx = np.unique(np.round(vals/(abs(vals).max(initial=0) or 1), 5), return_index=True)
+        P = (abs(vals[idx])**2).mean()
         if not np.isclose(P, 1):
             warnings.warn("Power of symbols is not normalized to 1, this might cause issues later")
-        scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt((abs(np.unique(symbs)) ** 2).mean())
+        scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt(P)
         coded_symbols, graycode, encoding, bitmap_mtx = cls._generate_mapping(M, scale, dtype=dtype)
         out = np.empty_like(symbs).astype(dtype)
         idx = np.zeros(symbs.shape, dtype=int)
-- 
2.43.0


From d384235ec5ef123e06595720d9372fc978bc6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 074/116] fix: hybrid_qam_ber_vs_esn0 called a function that
 does not exist

---
 qampy/theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index 11e27a3..b699a11 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -277,7 +277,7 @@ def hybrid_qam_ber_vs_esn0(snr, pr, fr, M1, M2):
     snr = 10**(snr/10)
     bps1 = np.log2(M1)
     bps2 = np.log2(M2)
-    return 1/((1-fr)*bps1+fr*bps2)*((1-fr)*bps1*theory.MQAM_BERvsEsN0(snr/((1-fr)+fr*pr), M1) + fr*bps2*theory.MQAM_BERvsEsN0(pr*snr/((1-fr)+fr*pr), M2))
+    return 1/((1-fr)*bps1+fr*bps2)*((1-fr)*bps1*ber_vs_es_over_n0_qam(snr/((1-fr)+fr*pr), M1) + fr*bps2*ber_vs_es_over_n0_qam(pr*snr/((1-fr)+fr*pr), M2))
 
 def cal_gmi(M, snr, N=10**3):
     """
-- 
2.43.0


From 05e5ffae663e0225c7011d30f42dd691b66091d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 075/116] fix: generate_ps_symbols could not normalise its
 symbols (undefined name)

---
 qampy/theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index b699a11..73cbc36 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -26,7 +26,7 @@ from scipy.special import erfc
 from qampy.core.special_fcts import q_function
 from qampy.core import pythran_dsp
 from qampy.core.utils import bin2gray
-from qampy.helpers import dB2lin
+from qampy.helpers import dB2lin, normalise_and_center
 
 
 # All the formulas below are taken from dsplog.com
@@ -244,7 +244,7 @@ def generate_ps_symbols(N, symbs, px, normalize=True):
     mod_symbs = np.random.choice(symbs, N, p=px) + \
                 1j * np.random.choice(symbs, N, p=px)
     if normalize:
-        mod_symbs = utils.normalise_and_center(mod_symbs)
+        mod_symbs = normalise_and_center(mod_symbs)
     return mod_symbs
 
 def hybrid_qam_ber_vs_esn0(snr, pr, fr, M1, M2):
-- 
2.43.0


From 5470c5bcc74ac49738d2c119fd42df9ca5d92771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 076/116] fix: sim_mi_mc normalised the alphabet of the caller
 in place

---
 qampy/theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index 73cbc36..5a852f7 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -327,7 +327,7 @@ def sim_mi_mc(symbols, snr, N):
         mi : float
             Mutual information of the symbol alphabet at the given SNR
     """
-    symbols /= np.sqrt(np.mean(abs(symbols)**2))
+    symbols = symbols/np.sqrt(np.mean(abs(symbols)**2))
     N0 = 10**(-snr/10)
     sigma = np.sqrt(N0/2)
     noise = (np.random.randn(N) + 1j*np.random.randn(N))*sigma
-- 
2.43.0


From b3d360cabeb0ba37d6f85e7bd2080a5d6f09e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 077/116] fix: viterbiviterbi returned the phase of the last
 mode only

---
 qampy/core/phaserecovery.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 13882ee..b3b4a6c 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -58,6 +58,7 @@ def viterbiviterbi(E, N, M):
     E2d = np.atleast_2d(E)
     Eout = np.zeros_like(E2d)
     L = E2d.shape[1]
+    ph = []
     for i in range(E2d.shape[0]):
         Et = E2d[i]
         L = len(Et)
@@ -71,12 +72,14 @@ def viterbiviterbi(E, N, M):
             Eout[i, (N - 1) // 2:L - (N - 1) // 2] = E2d[i, (N - 1) // 2:L - (N - 1) // 2] * np.exp(-1.j*phase_est)
         else:
             Eout[i, N // 2 - 1:L - (N // 2)] = E2d[i, N // 2 - 1:L - (N // 2)] * np.exp(-1.j*phase_est)
+        ph.append(phase_est)
+    ph = np.asarray(ph)
     #if M == 4: # QPSK needs pi/4 shift
     # need a shift by pi/M for constellation points to not be on the axis
     if E.ndim == 1:
-        return  Eout.flatten(), phase_est.flatten()
+        return  Eout.flatten(), ph.flatten()
     else:
-        return Eout, phase_est
+        return Eout, ph
 
 def _bps_idx_py(E, angles, symbols, N):
     """
-- 
2.43.0


From 4e942951c000bc635ff050d150e491e787ff7240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 078/116] fix: partition_16qam estimated the signal power for a
 QAM order of 1.32

1.32 is the kurtosis of 16-QAM, cal_s0 takes the order. The power came out a quarter too low,
so that most middle-ring symbols were put into the outer ring.
---
 qampy/core/phaserecovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index b3b4a6c..5884d55 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -319,7 +319,7 @@ def partition_16qam(E):
        Technol. Lett. …, vol. 22, no. 20, pp. 1515–1517, 2010.
     """
 
-    S0 = cal_s0(E, 1.32)
+    S0 = cal_s0(E, 16)
     inner = (np.sqrt(S0 / 5) + np.sqrt(S0)) / 2.
     outer = (np.sqrt(9 * S0 / 5) + np.sqrt(S0)) / 2.
     Ea = abs(E)
-- 
2.43.0


From 36f34601f36c4156c50770d2054e4c57cd9f0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 079/116] fix: phase_partition_16qam rotated every mode by four
 times the phase of the last mode

---
 qampy/core/phaserecovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 5884d55..d76cec8 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -380,9 +380,9 @@ def phase_partition_16qam(E, Nblock):
         ph_out.append(np.unwrap(phi_est) / 4 - np.pi / 4)
     phi_out = np.asarray(ph_out)
     if E.ndim == 1:
-        return (E2d * np.exp(-1.j * phi_est)).flatten(), phi_out.flatten()
+        return (E2d * np.exp(-1.j * phi_out)).flatten(), phi_out.flatten()
     else:
-        return E2d * np.exp(-1.j * phi_est), phi_out
+        return E2d * np.exp(-1.j * phi_out), phi_out
 
 
 def find_freq_offset(sig, os=1, average_over_modes = True, fft_size = 2**16):
-- 
2.43.0


From 023680d427aa954f73fbdf80a116eef05f165889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 080/116] fix: comp_freq_offset raised when one offset was
 given for several modes

---
 qampy/core/phaserecovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index d76cec8..4a7f984 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -458,8 +458,10 @@ def comp_freq_offset(sig, freq_offset, os=1 ):
     # Fix number of stuff
     ndim = sig.ndim
     sig = np.atleast_2d(sig)
-    #freq_offset = np.atleast_2d(freq_offset)
     npols = sig.shape[0]
+    freq_offset = np.ravel(freq_offset)
+    if freq_offset.size == 1: # one offset applies to all modes
+        freq_offset = np.repeat(freq_offset, npols)
 
     # Output Vector
     comp_signal = np.zeros([npols, np.shape(sig)[1]], dtype=sig.dtype)
-- 
2.43.0


From e3ddc4c7f5ba7d7fa7a68e9e9780127cff1dedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 081/116] fix: pilot_based_cpe worked for two modes only

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index a9e10c7..3ffcd93 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -238,7 +238,7 @@ def pilot_based_cpe(rec_symbs, pilot_symbs, pilot_ins_ratio, num_average = 1, us
     pp1 = pilot_phase_base[:, :int((num_average-1)/2)]
     pp2 = pilot_phase_average[:]
     t = pilot_phase_base[:,:int((num_average-1)/2)]
-    t2 = pp2[:, -1].reshape(2,1)
+    t2 = pp2[:, -1:]
     pp3 = np.ones(t.shape)*t2
     pilot_phase = np.hstack([pp1, pp2, pp3])
     pilot_pos = np.arange(0,pilot_phase.shape[-1]*pilot_ins_ratio*use_pilot_ratio, pilot_ins_ratio*use_pilot_ratio)
-- 
2.43.0


From 4dbd57dcef0b29961b63b57db0be55c6440de938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 082/116] fix: frequency offsets were scaled wrongly for
 signals with a fractional oversampling

sig.os is truncated to an integer, an offset at 1.5 samples per symbol was removed
with the time axis of one sample per symbol.
---
 qampy/phaserec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/phaserec.py b/qampy/phaserec.py
index 77e8020..252cf46 100644
--- a/qampy/phaserec.py
+++ b/qampy/phaserec.py
@@ -112,7 +112,7 @@ def find_freq_offset(sig, average_over_modes = False, fft_size = 4096):
         freq_offset : int
             found frequency offset
     """
-    return core.phaserecovery.find_freq_offset(sig, sig.os, average_over_modes=average_over_modes,
+    return core.phaserecovery.find_freq_offset(sig, sig.fs/sig.fb, average_over_modes=average_over_modes,
                                                fft_size=fft_size)
 
 def comp_freq_offset(sig, freq_offset):
@@ -132,7 +132,7 @@ def comp_freq_offset(sig, freq_offset):
             input signal with removed frequency offset
 
     """
-    arr = core.phaserecovery.comp_freq_offset(sig, freq_offset, sig.os)
+    arr = core.phaserecovery.comp_freq_offset(sig, freq_offset, sig.fs/sig.fb)
     return sig.recreate_from_np_array(arr)
 
 def viterbiviterbi(E, N):
-- 
2.43.0


From c1f2708cb052fb542e920cec87d7661eaa0f8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 083/116] fix: sync2frame put cyclically permuted modes in the
 wrong order

---
 qampy/signals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/signals.py b/qampy/signals.py
index 323e048..b69d4ee 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1742,6 +1742,7 @@ class SignalWithPilots(SignalBase):
                                                                               Ntaps=Ntaps,
                                                                               frame_len=self.frame_len,
                                                                               M_pilot=self.Mpilots, **eqargs)
+        mode_alignment = np.argsort(mode_alignment) # the mode of the signal that carries each mode of the pilots
         self[:,:] = self[mode_alignment,:]
         shift_factors[shift_factors<0] += self.frame_len*self.os # we don't really want negative shift factors
         self.shiftfctrs = shift_factors[mode_alignment]
-- 
2.43.0


From 9e6897f36d2e87b2417d64f45e7350c93c76b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 084/116] fix: frame_sync failed for pilot sequences of odd
 length at the start of the signal

---
 qampy/core/pilotbased_receiver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 3ffcd93..ba17caf 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -408,7 +408,8 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
     for l in range(nmodes):
         idx_min = min_range[l]
         # Extract a longer sequence to ensure that the complete pilot sequence is found
-        longSeq = rx_signal[:, (idx_min)*step-search_window: (idx_min )*step+search_window]
+        start = max(0, idx_min*step-search_window) # odd windows are longer than two steps
+        longSeq = rx_signal[:, start: (idx_min )*step+search_window]
         # Apply filter taps to the long sequence and remove coarse FO
         wx1 = wxy[l]
         symbs_out = equalisation.apply_filter(longSeq,os,wx1)
@@ -431,7 +432,7 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
         # Remove the found reference mode
         not_found_modes = not_found_modes[not_found_modes != max_sync_pol]
         # New starting sample
-        shift_factor[l] = (idx_min)*step + os*symb_delay - search_window
+        shift_factor[l] = start + os*symb_delay
     # Important: the shift factors are arranged in the order of the signal modes, but
     # the mode_sync_order specifies how the signal modes need to be rearranged to match the pilots
     # therefore shift factors also need to be "mode_aligned"
-- 
2.43.0


From 4896cc5d445d1b58d7f21b80063e857e7ef4d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 085/116] fix: frame_sync gave up if the pilot sequence lies
 across two search windows

---
 qampy/core/pilotbased_receiver.py | 47 ++++++++++++++++---------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index ba17caf..807069c 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -371,6 +371,7 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
     sync_bool = True
 
     FRAME_SYNC_THRS = 120 # this is somewhat arbitrary but seems to work well
+    MAX_CANDIDATES = 4 # how many search windows to try
     rx_signal = np.atleast_2d(rx_signal)
     ref_symbs = np.atleast_2d(ref_symbs)
     pilot_seq_len = ref_symbs.shape[-1]
@@ -402,29 +403,31 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
         wxy, err_out = equalisation.equalise_signal(tmp, os, mu, M_pilot, Ntaps=Ntaps, **eqargs)
         wxys[i] = wxy
         sub_vars[:,i] = np.var(err_out, axis=-1)
-    # Lowest variance of the CMA error for each pol
-    min_range = np.argmin(sub_vars, axis=-1)
-    wxy = wxys[min_range]
+    # Lowest variance of the CMA error for each pol, if the pilot sequence lies across two windows this can be the wrong
+    # one, so keep some more candidates
+    min_range = np.argsort(sub_vars, axis=-1)[:, :MAX_CANDIDATES]
     for l in range(nmodes):
-        idx_min = min_range[l]
-        # Extract a longer sequence to ensure that the complete pilot sequence is found
-        start = max(0, idx_min*step-search_window) # odd windows are longer than two steps
-        longSeq = rx_signal[:, start: (idx_min )*step+search_window]
-        # Apply filter taps to the long sequence and remove coarse FO
-        wx1 = wxy[l]
-        symbs_out = equalisation.apply_filter(longSeq,os,wx1)
-        foe_corse = phaserecovery.find_freq_offset(symbs_out)
-        symbs_out = phaserecovery.comp_freq_offset(symbs_out, foe_corse)
-        # Check for pi/2 ambiguties and verify all
-        max_phase_rot = np.zeros(nmodes, dtype=np.float64)
-        found_delay = np.zeros(nmodes, dtype=np.int32)
-        for ref_pol in not_found_modes:
-            ix, dat, ii, ac = ber_functions.find_sequence_offset_complex(ref_symbs[ref_pol], symbs_out[l])
-            found_delay[ref_pol] = -ix
-            max_phase_rot[ref_pol] = ac
-        # Check for which mode found and extract the reference delay
-        max_sync_pol = np.argmax(max_phase_rot)
-        if max_phase_rot[max_sync_pol] < FRAME_SYNC_THRS: #
+        for idx_min in min_range[l]:
+            # Extract a longer sequence to ensure that the complete pilot sequence is found
+            start = max(0, idx_min*step-search_window) # odd windows are longer than two steps
+            longSeq = rx_signal[:, start: (idx_min )*step+search_window]
+            # Apply filter taps to the long sequence and remove coarse FO
+            wx1 = wxys[idx_min]
+            symbs_out = equalisation.apply_filter(longSeq,os,wx1)
+            foe_corse = phaserecovery.find_freq_offset(symbs_out)
+            symbs_out = phaserecovery.comp_freq_offset(symbs_out, foe_corse)
+            # Check for pi/2 ambiguties and verify all
+            max_phase_rot = np.zeros(nmodes, dtype=np.float64)
+            found_delay = np.zeros(nmodes, dtype=np.int32)
+            for ref_pol in not_found_modes:
+                ix, dat, ii, ac = ber_functions.find_sequence_offset_complex(ref_symbs[ref_pol], symbs_out[l])
+                found_delay[ref_pol] = -ix
+                max_phase_rot[ref_pol] = ac
+            # Check for which mode found and extract the reference delay
+            max_sync_pol = np.argmax(max_phase_rot)
+            if max_phase_rot[max_sync_pol] >= FRAME_SYNC_THRS:
+                break
+        else:
             warnings.warn("Very low autocorrelation, likely the frame-sync failed")
             sync_bool = False
         mode_sync_order[l] = max_sync_pol
-- 
2.43.0


From 213b619a2edd452e667cfa0851fc54f0920a3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 086/116] fix: the pilot equaliser could converge to the symbol
 next to the pilots

---
 qampy/core/pilotbased_receiver.py | 51 +++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 807069c..3162360 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -459,6 +459,49 @@ def shift_signal(sig, shift_factors):
         sig = np.roll(sig, shift_factors, axis=-1)
     return sig
 
+def _align_taps(wx, syms, ref_symbs, os, mode, max_shift=2):
+    """
+    Shift the taps of a mode such that the equalised symbols line up with the reference symbols. A blind equaliser does
+    not know about the reference and can converge to a neighbouring symbol, e.g. if the delay is not a multiple of the
+    symbol duration.
+
+    Parameters
+    ----------
+    wx : array_like
+        Filter taps, the ones of the mode are changed in place
+    syms : array_like
+        Equalised symbols of the mode
+    ref_symbs : array_like
+        Reference symbols of the mode
+    os : int
+        Oversampling ratio
+    mode : int
+        The mode number
+    max_shift : int, optional
+        Largest shift in symbols to look for
+
+    Returns
+    -------
+    shift : int
+        By how many symbols the taps were shifted
+    """
+    # products of neighbouring symbols do not depend on a frequency offset
+    d_syms = syms[1:]*syms[:-1].conj()
+    d_ref = ref_symbs[1:]*ref_symbs[:-1].conj()
+    N = d_ref.shape[0]
+    shifts = [k for k in range(-max_shift, max_shift+1) if abs(k)*2 < N and abs(k)*os < wx.shape[-1]//2]
+    corr = [abs(np.vdot(d_ref[max(0, -k):N-max(0, k)], d_syms[max(0, k):N-max(0, -k)])) for k in shifts]
+    shift = shifts[np.argmax(corr)]
+    if shift == 0 or max(corr) < 2*corr[shifts.index(0)]:
+        return 0
+    for i in [mode] if np.iscomplexobj(wx) else [mode, mode + wx.shape[0]//2]:
+        wx[i] = np.roll(wx[i], shift*os, axis=-1)
+        if shift > 0:
+            wx[i, :, :shift*os] = 0
+        else:
+            wx[i, :, shift*os:] = 0
+    return shift
+
 def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=False, mu=(1e-4, 1e-4), M_pilot=4, Ntaps=45, Niter=30,
                             adaptive_stepsize=True, methods=('cma', 'cma'), wxinit=None):
     """
@@ -522,7 +565,9 @@ def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=Fals
                                                                  Niter=Niter, method=methods[0],
                                                                  adaptive_stepsize=adaptive_stepsize, apply=True,
                                                                  modes=[i])
-
+            if _align_taps(wx, syms_out[i], ref_symbs[i], os, i):
+                modes = [i] if np.iscomplexobj(wx) else [i, i + npols]
+                syms_out[i] = equalisation.apply_filter(rx_sig_mode, os, wx, modes=modes)[0]
     else:
         rx_sig_mode = rx_signal[:, shift_fctrs[0] : shift_fctrs[0] + pilot_seq_len * os + Ntaps - 1]
         syms_out, wx, err = equalisation.equalise_signal(rx_sig_mode, os, mu[0], M_pilot,
@@ -531,7 +576,9 @@ def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=Fals
                                      Niter=Niter, method=methods[0],
                                      adaptive_stepsize=adaptive_stepsize,
                                      apply=True)
-        
+        if any([_align_taps(wx, syms_out[i], ref_symbs[i], os, i) for i in range(npols)]):
+            syms_out = equalisation.apply_filter(rx_sig_mode, os, wx)
+
     # Run FOE and shift spectrum
     if foe_comp:
         foe, foePerMode, cond = pilot_based_foe(syms_out, ref_symbs)
-- 
2.43.0


From 3037d1ea8bcdfa179f52f4e280570249ecaf9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 087/116] fix: frame_sync missed pilot sequences at the
 beginning of the signal

---
 qampy/core/pilotbased_receiver.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 3162360..54fb2e3 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -371,7 +371,7 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
     sync_bool = True
 
     FRAME_SYNC_THRS = 120 # this is somewhat arbitrary but seems to work well
-    MAX_CANDIDATES = 4 # how many search windows to try
+    MAX_CANDIDATES = 6 # how many search windows to try
     rx_signal = np.atleast_2d(rx_signal)
     ref_symbs = np.atleast_2d(ref_symbs)
     pilot_seq_len = ref_symbs.shape[-1]
@@ -394,11 +394,10 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
     num_steps = (frame_len*os)//step + 1
     # Now search for every mode independent
     shift_factor = np.zeros(nmodes, dtype=int)
-    # Search based on equalizer error. Avoid one pilot_seq_len part in the beginning and
-    # end to ensure that sufficient symbols can be used for the search
+    # Search based on equalizer error.
     sub_vars = np.ones((nmodes, num_steps)) * 1e2
     wxys = np.zeros((num_steps, nmodes, nmodes, Ntaps), dtype=rx_signal.dtype)
-    for i in np.arange(search_overlap, num_steps): # we avoid one step at the beginning
+    for i in range(num_steps):
         tmp = rx_signal[:, i*step:i*step+search_window]
         wxy, err_out = equalisation.equalise_signal(tmp, os, mu, M_pilot, Ntaps=Ntaps, **eqargs)
         wxys[i] = wxy
-- 
2.43.0


From 1fc2423339ae185ffaa6f57dca5225006b26f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 088/116] fix: the equaliser filter dropped the last complete
 window

---
 qampy/core/equalisation/pythran_equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 694d4a9..54198e3 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -66,7 +66,7 @@ def apply_filter_to_signal(E, os, wx, modes=None):
         assert np.max(modes) < nmodes_max, "largest mode number is larger than shape of signal"
         nmodes = modes.size
     L = E.shape[1]
-    N = (L-Ntaps+1)//os
+    N = (L-Ntaps)//os + 1
     output  = np.zeros((nmodes, N), dtype=E.dtype)
     #omp parallel for collapse(2)
     for j in range(nmodes):
-- 
2.43.0


From e3c4244df8e6cf0861099fcbd695827cffd616ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 089/116] fix: apply_filter with the python method did not
 support modes, real-valued taps and short filters

---
 qampy/core/equalisation/equalisation.py | 41 +++++--------------------
 1 file changed, 7 insertions(+), 34 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 9c8eaf2..c971866 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -180,14 +180,13 @@ def apply_filter(E, os, wxy, method="pyt", modes=None):
         raise ValueError("taps are for {} inputs, but the signal has {}".format(wxy.shape[1], n_in))
     if not 0 < wxy.shape[-1] <= E.shape[-1]:
         raise ValueError("number of taps needs to be between 1 and the length of the signal")
-    if method == "py":
-        return apply_filter_py(E, os, wxy)
-    elif method == "pyt":
+    if method == "py" or method == "pyt":
+        filter_fct = apply_filter_py if method == "py" else pythran_equalisation.apply_filter_to_signal
         if np.iscomplexobj(E) and np.iscomplexobj(wxy):
-            return pythran_equalisation.apply_filter_to_signal(E, os, wxy, modes)
+            return filter_fct(E, os, wxy, modes)
         elif np.iscomplexobj(E):
             E  = _convert_sig_to_real(E)
-        Etmp = pythran_equalisation.apply_filter_to_signal(E, os, wxy, modes)
+        Etmp = filter_fct(E, os, wxy, modes)
         if E.itemsize == 8:
             return _convert_sig_to_cmplx(Etmp, nmodes, np.complex128(1j))
         elif E.itemsize == 4:
@@ -222,43 +221,17 @@ def apply_filter_py(E, os, wxy, modes=None):
     Eest   : array_like
         equalised signal
     """
-    # equalise data points. Reuse samples used for channel estimation
-    # this seems significantly faster than the previous method using a segment axis
-    # TODO something fails still in this function
     E = np.atleast_2d(E)
     Ntaps = wxy.shape[-1]
     nmodes_max = wxy.shape[0]
     if modes is None:
         modes = np.arange(nmodes_max)
-        nmodes = nmodes_max
     else:
         modes = np.atleast_1d(modes)
         assert np.max(modes) < nmodes_max, "largest mode number is larger than shape of signal"
-        nmodes = modes.sizeX = X1
-    X = segment_axis(E[modes[0]], Ntaps, Ntaps-os)
-    ww = wxy[0].flatten()
-    # Case for a butterfly-configured EQ
-    if nmodes_max > 1:
-        for pol in range(1, nmodes):
-            X_P = segment_axis(E[modes[pol]], Ntaps,Ntaps-os)
-            X = np.hstack([X,X_P])
-            ww = np.vstack([ww,wxy[modes[pol]].flatten()])
-
-        # Compute the output
-        Eest = np.dot(X,ww.transpose())
-
-        # Extract the error (per butterfly entry)
-        Eest_tmp = Eest[:,0]
-        for pol in range(1, nmodes):
-            Eest_tmp = np.vstack([Eest_tmp,Eest[:,modes[pol]]])
-        Eest = Eest_tmp
-
-    # Single mode EQ
-    else:
-        Eest = np.dot(X, ww.transpose())
-        Eest = np.atleast_2d(Eest)
-
-    return Eest
+    # for every output sum over all the input modes and the taps
+    X = np.lib.stride_tricks.sliding_window_view(E, Ntaps, axis=-1)[:, ::os]
+    return np.tensordot(wxy[modes], X, axes=([1, 2], [0, 2])).astype(E.dtype)
 
 def _convert_sig_to_real(E):
     Etmp = np.zeros((2*E.shape[0], E.shape[1]), dtype=E.real.dtype)
-- 
2.43.0


From 2357e3385552a61896c4ad067f52dc8be89a3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 090/116] fix: equalisers rejected Fortran-ordered arrays and
 mode lists that are views

---
 qampy/core/equalisation/equalisation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index c971866..bf3cf7c 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -163,8 +163,8 @@ def apply_filter(E, os, wxy, method="pyt", modes=None):
     Eest   : array_like
         equalised signal
     """
-    E = np.copy(E) # pythran requires non-reshaped arrays, copy to make sure they are
-    wxy = np.copy(wxy)
+    E = np.copy(E, order="C") # pythran requires non-reshaped arrays, copy to make sure they are
+    wxy = np.copy(wxy, order="C")
     if modes is None:
         modes = np.arange(wxy.shape[0])
     else:
@@ -517,7 +517,7 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
     if method in REAL_VALUED:
         E = _convert_sig_to_real(E)
     else:
-        E = np.copy(E) #  copy to make pythran happy
+        E = np.copy(E, order="C") #  copy to make pythran happy
     mu = E.real.dtype.type(mu)
     nmodes = E.shape[0]
     if modes is None:
@@ -527,7 +527,7 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
             modes = np.atleast_1d(modes)
             modes = np.hstack([modes, modes+nmodes//2])
         else:
-            modes = np.atleast_1d(modes)
+            modes = np.copy(np.atleast_1d(modes))
         assert np.max(modes) < nmodes, "largest mode number is larger than shape of signal"
     if wxy is None:
         wxy = _init_taps(Ntaps, nmodes, nmodes, E.dtype)
-- 
2.43.0


From 9ac2bb63139918de8add676dbb47aaf0e184b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 091/116] fix: partition codes of the modified RDE for 8-QAM
 took codes for boundaries

---
 qampy/core/equalisation/equalisation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index bf3cf7c..bca53b1 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -312,6 +312,10 @@ def generate_partition_codes_complex(M):
     syms /= np.sqrt(scale)
     syms_r = np.unique(abs(syms.real)**4/abs(syms.real)**2)
     syms_i = np.unique(abs(syms.imag)**4/abs(syms.imag)**2)
+    # without the same number of codes for both parts (8-QAM) the partitions are taken for codes
+    n = max(syms_r.size, syms_i.size)
+    syms_r = np.pad(syms_r, (0, n - syms_r.size), mode="edge")
+    syms_i = np.pad(syms_i, (0, n - syms_i.size), mode="edge")
     codes = syms_r + 1.j * syms_i
     part_r = syms_r[:-1] + np.diff(syms_r)/2
     part_i = syms_i[:-1] + np.diff(syms_i)/2
-- 
2.43.0


From e6a38353012aa19d459e93c8210c81a8dbe47ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 092/116] fix: the adaptive step size was reduced by the
 previous error instead of the present one

---
 qampy/core/equalisation/pythran_equalisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 54198e3..c7be077 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -104,7 +104,7 @@ def train_equaliser_realvalued(E, TrSyms, Niter, os, mu, wx, modes, adaptive, sy
                 err[mode, it*TrSyms+i] = errorfct(Xest, symbols[mode], i)
                 wx[mode] += mu * err[mode, it*TrSyms+i] * X
                 if adaptive and i > 0:
-                    mu = adapt_step_real(mu, err[mode, it*TrSyms+i], err[mode, it*TrSyms+i-1])
+                    mu = adapt_step_real(mu, err[mode, it*TrSyms+i-1], err[mode, it*TrSyms+i])
     return err, wx, mu
 
 def cma_error_real(Xest, s1, i):
@@ -169,7 +169,7 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
                 #wx[mode] += mu * np.conj(err[mode, it*TrSyms+i]) * X
                 wx[mode] += mu * err[mode, it*TrSyms+i] * np.conj(X)
                 if adaptive and i > 0:
-                    mu = adapt_step(mu, err[mode, it*TrSyms+i], err[mode, it*TrSyms+i-1])
+                    mu = adapt_step(mu, err[mode, it*TrSyms+i-1], err[mode, it*TrSyms+i])
     return err, wx, mu
 
 ######################################################
-- 
2.43.0


From 9ff481b383e633ab9260d06da7c3e674ac5eca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 093/116] fix: the adaptive step size was handed on from mode
 to mode and shared between threads

---
 qampy/core/equalisation/pythran_equalisation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index c7be077..d265bdc 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -95,6 +95,7 @@ def train_equaliser_realvalued(E, TrSyms, Niter, os, mu, wx, modes, adaptive, sy
     assert E.shape[1] > TrSyms*os+ntaps, "Field must be longer than the number of training symbols"
     assert modes.max() < nmodes, "Maximum mode number must not be higher than number of modes"
     err = np.zeros((nmodes, TrSyms*Niter), dtype=E.dtype)
+    mus = np.full(nmodes, mu) # the step size of every mode is adapted on its own
     #omp parallel for
     for mode in modes:
         for it in range(Niter):
@@ -102,10 +103,10 @@ def train_equaliser_realvalued(E, TrSyms, Niter, os, mu, wx, modes, adaptive, sy
                 X = E[:, i * os:i * os + ntaps]
                 Xest = apply_filter(X,  wx[mode])
                 err[mode, it*TrSyms+i] = errorfct(Xest, symbols[mode], i)
-                wx[mode] += mu * err[mode, it*TrSyms+i] * X
+                wx[mode] += mus[mode] * err[mode, it*TrSyms+i] * X
                 if adaptive and i > 0:
-                    mu = adapt_step_real(mu, err[mode, it*TrSyms+i-1], err[mode, it*TrSyms+i])
-    return err, wx, mu
+                    mus[mode] = adapt_step_real(mus[mode], err[mode, it*TrSyms+i-1], err[mode, it*TrSyms+i])
+    return err, wx, mus[modes[modes.shape[0] - 1]]
 
 def cma_error_real(Xest, s1, i):
     d = s1[0] - abs(Xest)**2
@@ -159,6 +160,7 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
         TrSyms == E.shape[1] - ntaps
     assert modes.max() < nmodes, "Maximum mode number must not be higher than number of modes"
     err = np.zeros((nmodes, TrSyms*Niter), dtype=E.dtype)
+    mus = np.full(nmodes, mu) # the step size of every mode is adapted on its own
     #omp parallel for
     for mode in modes:
         for it in range(Niter):
@@ -167,10 +169,10 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
                 Xest = apply_filter(X,  wx[mode])
                 err[mode, it*TrSyms+i] = errorfct(Xest, symbols[mode], i)
                 #wx[mode] += mu * np.conj(err[mode, it*TrSyms+i]) * X
-                wx[mode] += mu * err[mode, it*TrSyms+i] * np.conj(X)
+                wx[mode] += mus[mode] * err[mode, it*TrSyms+i] * np.conj(X)
                 if adaptive and i > 0:
-                    mu = adapt_step(mu, err[mode, it*TrSyms+i-1], err[mode, it*TrSyms+i])
-    return err, wx, mu
+                    mus[mode] = adapt_step(mus[mode], err[mode, it*TrSyms+i-1], err[mode, it*TrSyms+i])
+    return err, wx, mus[modes[modes.shape[0] - 1]]
 
 ######################################################
 # Error functions
-- 
2.43.0


From d14a93dc2a66ba7dc7c0456358c20abd8126af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 094/116] fix: decisions on samples without a finite distance
 read outside the alphabet

---
 qampy/core/equalisation/pythran_equalisation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index d265bdc..546c85a 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -234,9 +234,14 @@ def ddlms_error(Xest, symbs, i):
     return symbol - Xest
 
 def det_symbol_argmin(X, symbs): # this version is about 1.5 times slower than the one below
-    dist = np.abs(X-symbs)
-    idx = np.argmin(dist)
-    return symbs[idx], dist[idx], idx
+    idx = 0 # argmin has no valid result if no distance is a finite number
+    d0 = np.abs(X-symbs[0])
+    for j in range(1, symbs.shape[0]):
+        d = np.abs(X-symbs[j])
+        if d < d0:
+            d0 = d
+            idx = j
+    return symbs[idx], d0, idx
 
 #pythran export det_symbol(complex128, complex128[])
 #pythran export det_symbol(complex64, complex64[])
-- 
2.43.0


From aea3ec462acb0e0fcf1dd0cdc018488931d91295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 095/116] fix: blind phase search accepted windows and angle
 counts that read outside its arrays

---
 qampy/core/phaserecovery.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 4a7f984..7fa3290 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -93,6 +93,13 @@ def _bps_idx_py(E, angles, symbols, N):
     idx[N:-N] = mvg.argmin(1)
     return idx
 
+def _check_bps_args(Mtestangles, N):
+    # the compiled search does not check its index into the window and the angles
+    if Mtestangles < 1:
+        raise ValueError("Mtestangles needs to be at least 1")
+    if N < 1:
+        raise ValueError("N needs to be at least 1")
+
 def bps(E, Mtestangles, symbols, N, method="pyt", **kwargs):
     """
     Perform a blind phase search after _[1]
@@ -141,6 +148,7 @@ def bps(E, Mtestangles, symbols, N, method="pyt", **kwargs):
         bps_fct = _bps_idx_pyt
     else:
         raise ValueError("Method needs to be 'pyx', 'py' or 'af'")
+    _check_bps_args(Mtestangles, N)
     if E.dtype is np.dtype(np.complex64):
         dtype = np.float32
     else:
@@ -272,6 +280,7 @@ def bps_twostage(E, Mtestangles, symbols, N , B=4, method="pyt", **kwargs):
         bps_fct = _bps_idx_py
     else:
         raise ValueError("Method needs to be 'pyx', 'py' or 'af'")
+    _check_bps_args(Mtestangles, N)
     angles = np.linspace(-np.pi/4, np.pi/4, Mtestangles, endpoint=False, dtype=E.real.dtype).reshape(1,-1)
     Ew = np.atleast_2d(E)
     ph_out = []
-- 
2.43.0


From b744d3d09a10fc822ba504f43ef3d7a6dc088541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 096/116] fix: a received mode without power broke the
 synchronisation of the error metrics

---
 qampy/core/ber_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index ac548a9..549a05c 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -99,7 +99,7 @@ def find_sequence_offset_complex(x, y):
         rx = y * 1.j ** i
         idx, ac = find_sequence_offset(x, rx, show_cc=True)
         act = ac.real.max()
-        if act > acm:
+        if i == 0 or act > acm: # nothing correlates with e.g. a constant sequence
             ii = i
             ix = idx
             acm = act
-- 
2.43.0


From 9c37a1d326b2709f477cc6d7b649accb59f13905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 097/116] fix: two stage phase search accepted second stages
 without angles and read outside its arrays

---
 qampy/core/phaserecovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 7fa3290..f60dcf3 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -281,6 +281,8 @@ def bps_twostage(E, Mtestangles, symbols, N , B=4, method="pyt", **kwargs):
     else:
         raise ValueError("Method needs to be 'pyx', 'py' or 'af'")
     _check_bps_args(Mtestangles, N)
+    if B < 1:
+        raise ValueError("B needs to be at least 1")
     angles = np.linspace(-np.pi/4, np.pi/4, Mtestangles, endpoint=False, dtype=E.real.dtype).reshape(1,-1)
     Ew = np.atleast_2d(E)
     ph_out = []
-- 
2.43.0


From c012075dee206e6aa232456a344db42c54a5f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 098/116] fix: decisions without an alphabet read outside the
 array of symbols

---
 qampy/core/equalisation/equalisation.py | 2 ++
 qampy/core/phaserecovery.py             | 8 +++++---
 qampy/core/signal_quality.py            | 2 ++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index bca53b1..4cf2724 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -554,6 +554,8 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
         raise ValueError("mode numbers must not be negative")
     if TrSyms < 0 or (TrSyms - 1)*os + Ntaps > E.shape[-1]:
         raise ValueError("signal of length {} is too short for {} training symbols and {} taps".format(E.shape[-1], TrSyms, Ntaps))
+    if symbols.shape[-1] < 1:
+        raise ValueError("symbols must not be empty")
     if method in DATA_AIDED and symbols.shape[-1] < TrSyms:
         raise ValueError("{} training symbols, but only {} known symbols".format(TrSyms, symbols.shape[-1]))
     if method in REAL_VALUED:
diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index f60dcf3..bd2c2dd 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -93,10 +93,12 @@ def _bps_idx_py(E, angles, symbols, N):
     idx[N:-N] = mvg.argmin(1)
     return idx
 
-def _check_bps_args(Mtestangles, N):
+def _check_bps_args(Mtestangles, symbols, N):
     # the compiled search does not check its index into the window and the angles
     if Mtestangles < 1:
         raise ValueError("Mtestangles needs to be at least 1")
+    if np.size(symbols) < 1:
+        raise ValueError("symbols must not be empty")
     if N < 1:
         raise ValueError("N needs to be at least 1")
 
@@ -148,7 +150,7 @@ def bps(E, Mtestangles, symbols, N, method="pyt", **kwargs):
         bps_fct = _bps_idx_pyt
     else:
         raise ValueError("Method needs to be 'pyx', 'py' or 'af'")
-    _check_bps_args(Mtestangles, N)
+    _check_bps_args(Mtestangles, symbols, N)
     if E.dtype is np.dtype(np.complex64):
         dtype = np.float32
     else:
@@ -280,7 +282,7 @@ def bps_twostage(E, Mtestangles, symbols, N , B=4, method="pyt", **kwargs):
         bps_fct = _bps_idx_py
     else:
         raise ValueError("Method needs to be 'pyx', 'py' or 'af'")
-    _check_bps_args(Mtestangles, N)
+    _check_bps_args(Mtestangles, symbols, N)
     if B < 1:
         raise ValueError("B needs to be at least 1")
     angles = np.linspace(-np.pi/4, np.pi/4, Mtestangles, endpoint=False, dtype=E.real.dtype).reshape(1,-1)
diff --git a/qampy/core/signal_quality.py b/qampy/core/signal_quality.py
index 1ecf371..860e769 100644
--- a/qampy/core/signal_quality.py
+++ b/qampy/core/signal_quality.py
@@ -64,6 +64,8 @@ def make_decision(signal, symbols, method="pyt", **kwargs):
         array of quantized symbols
 
     """
+    if np.size(symbols) < 1:
+        raise ValueError("symbols must not be empty") # not checked in the compiled function
     if method == "pyt":
         return _decision_pyt(signal, symbols, **kwargs)
     elif method == "af":
-- 
2.43.0


From fffe9663716ece4112dc874ab895ccf95429edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 099/116] fix: rrcos_pulseshaping of one-dimensional arrays
 lost single precision

---
 qampy/core/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 081e83b..56ddab3 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -175,7 +175,7 @@ def _rrcos_pulseshaping_freq(sig, fs, T, beta):
     nyq_fil = rrcos_freq(f, beta, T)
     nyq_fil /= nyq_fil.max()
     sig_f = scifft.fft(sig)
-    sig_out = scifft.ifft(sig_f*nyq_fil)
+    sig_out = scifft.ifft(sig_f*nyq_fil).astype(np.result_type(sig.dtype, np.complex64))
     return sig_out
 
 def rrcos_pulseshaping(sig, fs, T, beta, taps=1001):
@@ -212,7 +212,7 @@ def rrcos_pulseshaping(sig, fs, T, beta, taps=1001):
         for i in range(sig.shape[0]):
             sig_out[i] = scisig.fftconvolve(sig[i], nqt, 'same')
     else:
-        sig_out = scisig.fftconvolve(sig, nqt, 'same')
+        sig_out = scisig.fftconvolve(sig, nqt, 'same').astype(np.result_type(sig.dtype, np.float32))
     return sig_out
 
 
-- 
2.43.0


From 030614ce95e51d6e942a646b3a75c37e5b2f5625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 100/116] fix: rrcos_resample with the polyphase filter lost
 single precision

---
 qampy/core/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/resample.py b/qampy/core/resample.py
index 8f7637d..85b717b 100644
--- a/qampy/core/resample.py
+++ b/qampy/core/resample.py
@@ -120,7 +120,7 @@ def rrcos_resample(signal, fold, fnew, Ts=None, beta=None, taps=4001, renormalis
         t /= fup
         nqf = rrcos_time(t, beta, Ts)
         nqf /= nqf.max()
-        sig_new = scisig.resample_poly(signal, up, down, window=nqf)
+        sig_new = scisig.resample_poly(signal, up, down, window=nqf).astype(np.result_type(signal.dtype, np.float32))
     if renormalise:
         p = np.mean(abs(signal)**2)
         sig_new = normalise_and_center(sig_new)*np.sqrt(p)
-- 
2.43.0


From 2bf07321c57a50844482d686fc0d17ba7f3cafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 101/116] fix: phase_partition_16qam lost single precision

---
 qampy/core/phaserecovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index bd2c2dd..3985b80 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -391,7 +391,7 @@ def phase_partition_16qam(E, Nblock):
                 axis=0)[c2_m[i:i + Nblock]]
             phi_est[i:i + Nblock] = np.angle(S1_sum + Sx_tmp.sum())
         ph_out.append(np.unwrap(phi_est) / 4 - np.pi / 4)
-    phi_out = np.asarray(ph_out)
+    phi_out = np.asarray(ph_out, dtype=E2d.real.dtype)
     if E.ndim == 1:
         return (E2d * np.exp(-1.j * phi_out)).flatten(), phi_out.flatten()
     else:
-- 
2.43.0


From 32586d0172f2534811f6b8acc3113e2b084e0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 102/116] fix: pilot_based_cpe lost single precision

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 54fb2e3..0104663 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -246,7 +246,7 @@ def pilot_based_cpe(rec_symbs, pilot_symbs, pilot_ins_ratio, num_average = 1, us
 
     for l in range(npols):
         phase_trace[l,:] = np.interp(pilot_pos_new, pilot_pos, pilot_phase[l])
-    data_symbs = rec_symbs*np.exp(-1j*phase_trace)
+    data_symbs = (rec_symbs*np.exp(-1j*phase_trace)).astype(rec_symbs.dtype)
 
     # Remove the phase pilots after compensation. This is an option since they can be used for SNR estimation e.g.
     if remove_phase_pilots:
-- 
2.43.0


From 024f59f15e8910da497a0af3d76b7260991530bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 103/116] fix: CDcomp lost single precision

---
 qampy/core/equalisation/equalisation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 4cf2724..9d542f6 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -673,4 +673,5 @@ def CDcomp(E, fs, N, L, D, wl):
             sigEQ[i * n:i * n + n + 2 * zp] = sigEQ[i * n:i * n + n + 2 *
                                                     zp] + sigB
         sigEQ = sigEQ[zp:-zp]
+    sigEQ = sigEQ.astype(np.result_type(E.dtype, np.complex64))
     return sigEQ, H
-- 
2.43.0


From 33d6515cfd820833487ebe07868d9edb23dd7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 104/116] fix: correct_shifts changed the array it was given

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 0104663..6e27403 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -442,7 +442,7 @@ def frame_sync(rx_signal, ref_symbs, os, frame_len=2 ** 16, M_pilot=4,
 
 def correct_shifts(shift_factors, ntaps, os):
     # taps cause offset on shift factors
-    shift_factors = np.asarray(shift_factors)
+    shift_factors = np.array(shift_factors)
     if not((ntaps[1]-ntaps[0])%os  ==  0):
         raise ValueError("Taps for search and convergence impropper configured")
     tap_cor = int((ntaps[1]-ntaps[0])/2)
-- 
2.43.0


From 27df67c7de7103d817a8c87e01a9eff7b302936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 105/116] fix: shift_signal changed the signal it was given

---
 qampy/core/pilotbased_receiver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 6e27403..d7d7f77 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -452,6 +452,7 @@ def correct_shifts(shift_factors, ntaps, os):
 def shift_signal(sig, shift_factors):
     k = len(shift_factors)
     if k > 1:
+        sig = sig.copy()
         for i in range(k):
             sig[i] = np.roll(sig[i], -shift_factors[i])
     else:
-- 
2.43.0


From f71d76e10a3818147c55349e7351c40c1f707be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 106/116] fix: shift_signal shifted signals with a single mode
 in the wrong direction

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index d7d7f77..0048f95 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -456,7 +456,7 @@ def shift_signal(sig, shift_factors):
         for i in range(k):
             sig[i] = np.roll(sig[i], -shift_factors[i])
     else:
-        sig = np.roll(sig, shift_factors, axis=-1)
+        sig = np.roll(sig, -shift_factors[0], axis=-1)
     return sig
 
 def _align_taps(wx, syms, ref_symbs, os, mode, max_shift=2):
-- 
2.43.0


From dfc5d3198756686e0c276dac851ebbf4faa7f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 107/116] fix: calculate the phase of a carrier offset in
 double precision

For single precision signals the time axis and the phase were rounded to
single precision, so the error of the carrier grew with the length of the
signal and reached several percent after a few hundred thousand samples.
---
 qampy/core/impairments.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 036dc52..36a9d85 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -251,10 +251,12 @@ def add_carrier_offset(sig, fo, fs):
         signal with added offset
     """
     sign = np.atleast_2d(sig)
+    # the phase grows with time, so it is calculated in double precision for any signal
+    carrier = np.exp(2.j * np.pi * np.arange(sign.shape[1]) * fo / fs).astype(np.result_type(sign.dtype, np.complex64))
     if sig.ndim == 1:
-        return  (sign * np.exp(2.j * np.pi * np.arange(sign.shape[1], dtype=sign.dtype) * fo / fs)).flatten()
+        return (sign * carrier).flatten()
     else:
-        return  sign * np.exp(2.j * np.pi * np.arange(sign.shape[1], dtype=sign.dtype) * fo / fs)
+        return sign * carrier
 
 def add_modal_delay(sig, delay):
     """
-- 
2.43.0


From 84e18fdffcfde46b5c6eb011539539356c336cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 108/116] fix: moving_average lost precision on long single
 precision signals

The running sum over the whole signal was kept in the precision of the
input, so that with single precision the rounding error of the averages
grew with the length of the signal.
---
 qampy/core/filter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 56ddab3..0137bff 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -234,8 +234,12 @@ def moving_average(sig, N=3):
         Average signal of length len(sig)-n+1
     """
     sign = np.atleast_2d(sig)
-    ret = np.cumsum(np.insert(sign, 0,0, axis=-1), dtype=sig.dtype, axis=-1)
+    # the running sum grows with the length of the signal, so it is always kept in double precision
+    ret = np.cumsum(np.insert(sign, 0,0, axis=-1), dtype=np.result_type(sig.dtype, np.float64), axis=-1)
+    avg = (ret[:, N:] - ret[:,:-N])/N
+    if np.issubdtype(sig.dtype, np.inexact):
+        avg = avg.astype(sig.dtype)
     if sig.ndim == 1:
-        return ((ret[:, N:] - ret[:,:-N])/N).flatten()
+        return avg.flatten()
     else:
-        return (ret[:, N:] - ret[:,:-N])/N
+        return avg
-- 
2.43.0


From 7e3e4832157c069fc6d66b37556ba507b12f9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 109/116] fix: rrcos_resample ignored renormalise when no
 roll-off was given

Without beta the function resamples with the default filter, but the
renormalise argument was not passed on.
---
 qampy/core/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/resample.py b/qampy/core/resample.py
index 85b717b..bfc5d7d 100644
--- a/qampy/core/resample.py
+++ b/qampy/core/resample.py
@@ -101,7 +101,7 @@ def rrcos_resample(signal, fold, fnew, Ts=None, beta=None, taps=4001, renormalis
 
     """
     if beta is None:
-        return resample_poly(signal, fold, fnew)
+        return resample_poly(signal, fold, fnew, renormalise=renormalise)
     assert 0 < beta <= 1, "beta needs to be in interval (0,1]"
     if Ts is None:
         Ts = 1/fold
-- 
2.43.0


From 7c68e3ebf6ea311c907c96f8c0172bbe1713612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 110/116] fix: linspacestep could return one value too many

np.arange with a floating point step does not guarantee the number of
values: linspacestep(0, 0.1, 3) returned four values instead of three.
---
 qampy/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 51dfb3f..843c0ab 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -50,7 +50,7 @@ def linspacestep(start, step, N):
     out : array_like
         array of length N from start to start+N*step (not included)
     """
-    return np.arange(start, start + N * step, step=step)
+    return start + step * np.arange(N) # arange with a float step can return N + 1 values
 
 
 def lfsr_int(seed, mask):
-- 
2.43.0


From 934814d05cd527ee4ea827d9fadfbcca40820110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:11 +0000
Subject: [PATCH 111/116] fix: pilot_based_cpe failed if the reference pilots
 are fewer than the blocks and no multiple of use_pilot_ratio

---
 qampy/core/pilotbased_receiver.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 0048f95..63a5c97 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -196,6 +196,10 @@ def pilot_based_cpe(rec_symbs, pilot_symbs, pilot_ins_ratio, num_average = 1, us
     # If selected, only process a limited number of blocks.
     if (max_num_blocks is not None) and numBlocks > max_num_blocks:
         numBlocks = max_num_blocks
+    # There have to be reference pilots for all of the blocks
+    numRefPilots = np.shape(pilot_symbs)[1]
+    if numBlocks > numRefPilots:
+        numBlocks = numRefPilots
 
     # Make sure that a given number of pilots can be used
     if (numBlocks % use_pilot_ratio):
@@ -207,12 +211,7 @@ def pilot_based_cpe(rec_symbs, pilot_symbs, pilot_ins_ratio, num_average = 1, us
     rec_symbs = rec_symbs[:,:int(pilot_ins_ratio*numBlocks)]
 
     # Check that the number of blocks are equal and is valid
-    numRefPilots = np.shape(pilot_symbs)[1]
-    if numBlocks > numRefPilots:
-        numBlocks = numRefPilots
-        rec_symbs = rec_symbs[:,:int(numBlocks*pilot_ins_ratio)]
-        rec_pilots = rec_pilots[:,:int(numBlocks)]
-    elif numRefPilots > numBlocks:
+    if numRefPilots > numBlocks:
         pilot_symbs = pilot_symbs[:,:int(numBlocks)]
 
     # Remove every X pilot symbol if selected
-- 
2.43.0


From e94559247ba8636d952954227ae0a215574da63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:11 +0000
Subject: [PATCH 112/116] fix: apply_PMD_to_field used frequencies that are off
 by half a bin for odd lengths

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 36a9d85..e034863 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -127,7 +127,7 @@ def apply_PMD_to_field(field, theta, t_dgd, fs):
     out  : array_like
        new dual polarisation field with PMD
     """
-    omega = 2*np.pi*np.linspace(-fs/2, fs/2, field.shape[1], endpoint=False)
+    omega = 2*np.pi*fft.fftshift(fft.fftfreq(field.shape[1], 1/fs))
     return _applyPMD_dot(field, theta, t_dgd, omega)
 
 def phase_noise(sz, df, fs):
-- 
2.43.0


From 2d6d47c852aff66c63a8a0fb1985b441c6419939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:11 +0000
Subject: [PATCH 113/116] fix: corr_foe raised an AttributeError if it was
 called again

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index b69d4ee..ba8ace7 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1756,7 +1756,7 @@ class SignalWithPilots(SignalBase):
 
     def corr_foe(self, additional_foe = 0):
         foe_off = np.ones(self._foe.shape)*(np.mean(self._foe) + additional_foe)
-        self._foe = 0
+        self._foe = np.zeros_like(self._foe)
         self[:,:] = phaserec.comp_freq_offset(self, foe_off)
 
 
-- 
2.43.0


From fc0a0398fea84e21484c1578b859a7ecc5897297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 114/116] fix: SNR, GMI and MI of unsynchronised PSK signals
 were NaN if the signal was rotated

---
 qampy/signals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/signals.py b/qampy/signals.py
index ba8ace7..e0b6b89 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -447,6 +447,8 @@ class SignalBase(np.ndarray):
         if symbols_tx is None:
             symbols_tx = self.symbols
         symbols_tx, signal_rx = self._sync_and_adjust(symbols_tx, signal_rx, synced)
+        # a rotated reference is on the symbols only up to rounding
+        symbols_tx = np.array([make_decision(np.ascontiguousarray(s), self.coded_symbols)[0] for s in symbols_tx])
         snr = np.zeros(nmodes, dtype=np.float64)
         s0 = np.zeros(nmodes, dtype=np.float64)
         n0 = np.zeros(nmodes, dtype=np.float64)
-- 
2.43.0


From 14a0b5a18476ef2a2fcb3f3ec41bd023d5d649c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 115/116] fix: phase_partition_16qam chose between the
 rotations by comparing complex numbers, the estimate depended on the absolute
 phase

---
 qampy/core/phaserecovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 3985b80..1ecdcbf 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -386,9 +386,9 @@ def phase_partition_16qam(E, Nblock):
         phi_est = np.zeros(L, dtype=np.float64)
         for i in range(0, L, Nblock):
             S1_sum = np.sum(S1[i:i + Nblock])
-            Sx_tmp = np.min(
-                [S1_sum - Sx[i:i + Nblock], S1_sum - So[i:i + Nblock]],
-                axis=0)[c2_m[i:i + Nblock]]
+            # take the rotation which is closer to the QPSK symbols
+            Sx_tmp = np.where(abs(S1_sum - Sx[i:i + Nblock]) < abs(S1_sum - So[i:i + Nblock]),
+                              Sx[i:i + Nblock], So[i:i + Nblock])[c2_m[i:i + Nblock]]
             phi_est[i:i + Nblock] = np.angle(S1_sum + Sx_tmp.sum())
         ph_out.append(np.unwrap(phi_est) / 4 - np.pi / 4)
     phi_out = np.asarray(ph_out, dtype=E2d.real.dtype)
-- 
2.43.0


From f1e320559b5c596b09b807cba4347e8bbf4341df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:45 +0000
Subject: [PATCH 116/116] fix: SignalWithPilots.from_symbol_array divided the
 generated pilots by the root of pilot_scale instead of multiplying with it

---
 qampy/signals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index e0b6b89..38263d5 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1622,8 +1622,7 @@ class SignalWithPilots(SignalBase):
         out_symbs = np.empty((nmodes, frame_len), dtype=payload.dtype)
         Ndat = np.count_nonzero(idx_dat)
         if pilots is None:
-            pilots = pilot_class(pilot_kwargs["M"],  np.count_nonzero(idx_pil), nmodes=nmodes, dtype=payload.dtype, **kwargs) / np.sqrt(
-                pilot_scale) # this is still not super general
+            pilots = pilot_class(pilot_kwargs["M"],  np.count_nonzero(idx_pil), nmodes=nmodes, dtype=payload.dtype, **kwargs) * pilot_scale
         else:
             assert (nmodes == pilots.shape[0]) or (pilots.shape[0] == 1), "Pilots need to have the same number of modes as data or be one mode"
             if pilots.shape[0] == nmodes:
-- 
2.43.0

