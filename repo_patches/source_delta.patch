From 78a286c82c933e87bf679c6c400c7dee7e16f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 01/22] fix: transform a single sample in the Stockham FFT
 instead of panicking

---
 src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft.rs b/src/fft.rs
index 250a04a..729647c 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -654,6 +654,7 @@ impl<T: Float> ScalarFftImpl<T> {
         }
         if n <= 16 {
             match n {
+                1 => {}
                 2 => fft2(input),
                 4 => fft4(input),
                 8 => fft8(input),
-- 
2.43.0


From fe9bf15314aaa8e384985600df276a1bf676dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 02/22] fix: trim cached split buffers to the current length in
 the Stockham FFT

---
 src/fft.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 729647c..b300254 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -676,12 +676,9 @@ impl<T: Float> ScalarFftImpl<T> {
         if scratch.len() < n {
             scratch.resize(n, Complex::zero());
         }
-        if split_re.len() < n {
-            split_re.resize(n, T::zero());
-        }
-        if split_im.len() < n {
-            split_im.resize(n, T::zero());
-        }
+        // The cached buffers may be longer after a larger transform.
+        split_re.resize(n, T::zero());
+        split_im.resize(n, T::zero());
 
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
-- 
2.43.0


From 87f3a354a18779d050ffa036733b67ff5aea736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 03/22] fix: trim the cached Bluestein buffer to the current
 convolution length

---
 src/fft.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index b300254..09616a1 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1094,9 +1094,8 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             let chirp = chirp_arc.as_ref();
             let fft_b = fft_b_arc.as_ref();
             let m = fft_b.len();
-            if a.len() < m {
-                a.resize(m, Complex::zero());
-            }
+            // The cached buffer may be longer after a larger transform.
+            a.resize(m, Complex::zero());
             for (i, &val) in input.iter().take(n).enumerate() {
                 a[i] = val.mul(chirp[i]);
             }
-- 
2.43.0


From 981c6a1ddbe0b7d1e7bb9dbd434781813261cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 04/22] fix: reverse base-4 digits in the radix-4 FFT

---
 src/fft.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 09616a1..00e8dac 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1458,12 +1458,13 @@ impl<T: Float> ScalarFftImpl<T> {
         // Bit-reversal for radix-4
         let mut j = 0usize;
         for i in 1..n {
-            let mut bit = n >> 2;
-            while j & bit != 0 {
-                j ^= bit;
-                bit >>= 2;
+            // Increment the digit-reversed index in base 4.
+            let mut digit = n >> 2;
+            while j >= 3 * digit {
+                j -= 3 * digit;
+                digit >>= 2;
             }
-            j ^= bit;
+            j += digit;
             if i < j {
                 input.swap(i, j);
             }
-- 
2.43.0


From 07c6728e676de321d427b94cdaf37b140a0a9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 05/22] fix: reject empty input in the mixed-radix FFT with
 twiddles instead of looping

---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 00e8dac..c8f5f9b 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1663,6 +1663,9 @@ impl ScalarFftImpl<f32> {
         twiddles: &TwiddleFactorBuffer,
     ) -> Result<(), FftError> {
         let n = input.len();
+        if n == 0 {
+            return Err(FftError::EmptyInput);
+        }
         let factors = factorize(n);
         if factors.iter().all(|&f| f == 2 || f == 4) {
             if factors.iter().all(|&f| f == 4) {
-- 
2.43.0


From 7c44815bd3633d65c4f3e9da46eb07a88d5d469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 06/22] fix: reject strides whose extent overflows in the
 strided FFTs

---
 src/fft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index c8f5f9b..d109fa3 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1182,7 +1182,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1).saturating_mul(stride) >= input.len() {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
@@ -1243,7 +1243,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1).saturating_mul(stride) >= input.len() {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
-- 
2.43.0


From 6d39403f1e710ed140ec25114a236080302c2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 07/22] fix: reject overflowing shapes in the 2D and 3D FFTs

---
 src/ndfft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 34a0c7f..ee20da7 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -78,7 +78,7 @@ pub fn fft2d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch_col: &mut [Complex<T>],
 ) -> Result<(), FftError> {
-    if rows * cols != data.len() {
+    if rows.saturating_mul(cols) != data.len() {
         return Err(FftError::MismatchedLengths);
     }
     if rows == 0 || cols == 0 {
@@ -119,7 +119,7 @@ pub fn fft3d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch: &mut Fft3dScratch<'_, T>,
 ) -> Result<(), FftError> {
-    if depth * rows * cols != data.len() {
+    if depth.saturating_mul(rows).saturating_mul(cols) != data.len() {
         return Err(FftError::MismatchedLengths);
     }
     if depth == 0 || rows == 0 || cols == 0 {
-- 
2.43.0


From 01f5e6eea791d69c315f50ee728c03022a4e94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 08/22] fix: leave data untouched when a no_std inverse FFT
 refuses the length

---
 src/fft.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index d109fa3..8923446 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1136,6 +1136,11 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 1 {
             return Ok(());
         }
+        // Refuse unsupported lengths before touching the data.
+        #[cfg(not(feature = "std"))]
+        if !n.is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         #[cfg(feature = "parallel")]
         {
             #[cfg(all(feature = "parallel", feature = "std"))]
@@ -1391,6 +1396,11 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if re.len() != im.len() {
             return Err(FftError::MismatchedLengths);
         }
+        // Refuse unsupported lengths before touching the data.
+        #[cfg(not(feature = "std"))]
+        if !re.is_empty() && !re.len().is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let re32 = unsafe { &mut *(re as *mut [T] as *mut [f32]) };
-- 
2.43.0


From 286ce660e2cf7527d113a698a3fd6d068cfe4acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 09/22] fix: reject too few output frames in the parallel STFT

---
 src/stft.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index d91b192..63bf3c4 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -242,6 +242,10 @@ pub fn parallel<Fft: FftImpl<f32>>(
     if hop_size == 0 {
         return Err(FftError::InvalidHopSize);
     }
+    let required = signal.len().div_ceil(hop_size);
+    if output.len() < required {
+        return Err(FftError::MismatchedLengths);
+    }
     let win_len = window.len();
     output
         .par_iter_mut()
-- 
2.43.0


From 99840638497fbbb4d455d6dcbbce76b5060eafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 10/22] fix: reject wrong frame lengths in the single-frame
 STFT helpers

---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 63bf3c4..1b13903 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -364,6 +364,9 @@ pub fn frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame_out.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     for i in 0..win_len {
         let x = if start + i < signal.len() {
             signal[start + i] * window[i]
@@ -393,6 +396,9 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     fft.ifft(frame)?;
     for i in 0..win_len {
         if start + i < output.len() {
-- 
2.43.0


From 8a7883497e7413c33fb1b741090a5592df552e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 11/22] fix: reject wrong frame lengths in the parallel inverse
 STFT

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 1b13903..d480000 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -304,6 +304,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         return Err(FftError::InvalidHopSize);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
     type Accum = (usize, alloc::vec::Vec<f32>, alloc::vec::Vec<f32>);
     type AccumResult = Result<alloc::vec::Vec<Accum>, FftError>;
     let partials: AccumResult = frames
-- 
2.43.0


From 3c50307d4148c04d63807c69bd5d7515d568f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 12/22] fix: reject a window of the wrong length in the
 streaming inverse STFT

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index d480000..80c6f74 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -441,6 +441,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
+        if window.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
         let buffer = vec![0.0f32; win_len + hop * 2];
         let norm_buf = vec![0.0f32; win_len + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
-- 
2.43.0


From 965b1ab4bd8e8b0eef2ca81bd5815e5787114dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 13/22] fix: synthesise db4, sym4 and coif1 with the transposed
 analysis filters

---
 src/wavelet.rs | 67 ++++++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 8f12b57..4451c05 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -313,25 +313,26 @@ pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let n = approx.len();
     let len = n * 2;
     let mut output = vec![0.0; len];
+    // Synthesis taps: the transposed (orthonormal) analysis filters.
     let g = [
-        0.2303778133088965,
-        0.7148465705529157,
-        0.6308807679298589,
-        -0.027983769416859854,
-        -0.18703481171909309,
-        0.030841381835560764,
-        0.0328830116668852,
-        -0.010597401785069032,
-    ];
-    let h = [
         -0.010597401785069032,
-        -0.0328830116668852,
+        0.0328830116668852,
         0.030841381835560764,
-        0.18703481171909309,
+        -0.18703481171909309,
         -0.027983769416859854,
-        -0.6308807679298589,
+        0.6308807679298589,
         0.7148465705529157,
+        0.2303778133088965,
+    ];
+    let h = [
         -0.2303778133088965,
+        0.7148465705529157,
+        -0.6308807679298589,
+        -0.027983769416859854,
+        0.18703481171909309,
+        0.030841381835560764,
+        -0.0328830116668852,
+        -0.010597401785069032,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -407,25 +408,26 @@ pub fn sym4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let n = approx.len();
     let len = n * 2;
     let mut output = vec![0.0; len];
+    // Synthesis taps: the transposed (orthonormal) analysis filters.
     let g = [
-        0.0322231006040427,
-        -0.012603967262037833,
-        -0.09921954357684722,
-        0.29785779560527736,
-        0.8037387518059161,
-        0.49761866763201545,
-        -0.02963552764599851,
-        -0.07576571478927333,
-    ];
-    let h = [
         -0.07576571478927333,
-        0.02963552764599851,
+        -0.02963552764599851,
         0.49761866763201545,
-        -0.8037387518059161,
+        0.8037387518059161,
         0.29785779560527736,
-        0.09921954357684722,
+        -0.09921954357684722,
         -0.012603967262037833,
+        0.0322231006040427,
+    ];
+    let h = [
         -0.0322231006040427,
+        -0.012603967262037833,
+        0.09921954357684722,
+        0.29785779560527736,
+        -0.8037387518059161,
+        0.49761866763201545,
+        0.02963552764599851,
+        -0.07576571478927333,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -497,21 +499,22 @@ pub fn coif1_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let n = approx.len();
     let len = n * 2;
     let mut output = vec![0.0; len];
+    // Synthesis taps: the transposed (orthonormal) analysis filters.
     let g = [
+        -0.015655728135791993,
         -0.07273261951252645,
-        0.3378976624574818,
-        0.8525720202116004,
         0.3848648468648578,
+        0.8525720202116004,
+        0.3378976624574818,
         -0.07273261951252645,
-        -0.015655728135791993,
     ];
     let h = [
-        -0.015655728135791993,
         0.07273261951252645,
-        0.3848648468648578,
-        -0.8525720202116004,
         0.3378976624574818,
+        -0.8525720202116004,
+        0.3848648468648578,
         0.07273261951252645,
+        -0.015655728135791993,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
-- 
2.43.0


From 84df9f5991389d7bd9e22502f743e26dd712e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 14/22] fix: compute DST-III with its defining sine factors

---
 src/dst.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 549c829..b5c8e3f 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -121,9 +121,11 @@ pub fn dst3(input: &[f32]) -> Vec<f32> {
     let mut output = vec![0.0; n];
     let factor = PI / n as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (i, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * i as f32).sin();
+        let mut sum = 0.0;
+        for (i, &x) in input.iter().enumerate() {
+            // The last term carries half weight.
+            let weight = if i + 1 == n { 0.5 } else { 1.0 };
+            sum += weight * x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
@@ -245,9 +247,11 @@ pub fn dst3_inplace_stack_fft<const N: usize>(
     // Direct computation using stack memory to ensure parity with heap-based version.
     let factor = PI / N as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (n, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * n as f32).sin();
+        let mut sum = 0.0;
+        for (i, &x) in input.iter().enumerate() {
+            // The last term carries half weight.
+            let weight = if i + 1 == N { 0.5 } else { 1.0 };
+            sum += weight * x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
-- 
2.43.0


From 92d64518c32775fc1df724997e815531044077c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 15/22] fix: return zero instead of NaN from Goertzel when
 power rounds below zero

---
 src/goertzel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index a10ac4f..135d99f 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -32,6 +32,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
+    // Rounding can leave a vanishing power slightly below zero.
+    let power = if power < 0.0 { 0.0 } else { power };
     Ok(sqrtf(power))
 }
 
@@ -55,6 +57,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
+    // Rounding can leave a vanishing power slightly below zero.
+    let power = if power < 0.0 { 0.0 } else { power };
     Ok(sqrtf(power))
 }
 
-- 
2.43.0


From 734b4d38f5e900a017934d1a6832e982c954226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 16/22] fix: reject lengths other than the planned one in the
 DCT-II plan

---
 src/dct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dct.rs b/src/dct.rs
index ace4d1a..62b1444 100644
--- a/src/dct.rs
+++ b/src/dct.rs
@@ -67,7 +67,7 @@ impl DctPlanner {
         cos: &[f32],
     ) -> Result<(), FftError> {
         let n = input.len();
-        if output.len() != n {
+        if output.len() != n || cos.len() != n {
             return Err(FftError::MismatchedLengths);
         }
         let m = 2 * n;
-- 
2.43.0


From 557b3dbe8a6cf2e2b923d3da9f9d3d11a0e40823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 17/22] fix: taper every sample inside the Tukey edge

---
 src/window_more.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index 0239224..00c7e1e 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -7,21 +7,22 @@ use crate::num::Float;
 use alloc::vec;
 use alloc::vec::Vec;
 use core::f32::consts::PI;
-use libm::{cosf, fabsf, floorf, sinf};
+use libm::{cosf, fabsf, sinf};
 
 /// Tukey window (tapered cosine)
 pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
     let alpha = alpha.clamp(0.0, 1.0);
     let mut w = vec![0.0; len];
-    let edge = floorf(alpha * (len as f32 - 1.0) / 2.0) as usize;
+    let last = len as f32 - 1.0;
+    let taper = alpha * last / 2.0;
     for (n, w_n) in w.iter_mut().enumerate() {
-        *w_n = if n < edge {
-            0.5 * (1.0 + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 1.0)).cos())
-        } else if n < len - edge {
+        let x = n as f32;
+        *w_n = if x < taper {
+            0.5 * (1.0 + (PI * (x / taper - 1.0)).cos())
+        } else if x <= last - taper {
             1.0
         } else {
-            0.5 * (1.0
-                + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 2.0 / alpha + 1.0)).cos())
+            0.5 * (1.0 + (PI * ((last - x) / taper - 1.0)).cos())
         };
     }
     w
-- 
2.43.0


From 30ccf913c24cbeded45c223dfaa3c4fbcfb2eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 18/22] fix: compute the Bohman window from the distance to its
 centre

---
 src/window_more.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index 00c7e1e..24fc54b 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -44,8 +44,8 @@ pub fn bohman(len: usize) -> Vec<f32> {
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
-        let x = (i as f32 / (n - 1.0)) - 0.5;
-        *w_i = (1.0 - fabsf(x)) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
+        let x = fabsf(2.0 * i as f32 / (n - 1.0) - 1.0);
+        *w_i = (1.0 - x) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
     }
     w
 }
-- 
2.43.0


From 7b754f76c434d0c6695bbba450369ddbe93ad30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 19/22] fix: multi_level_inverse with odd intermediate lengths

The padding sample of a level whose input length was odd made the
reconstruction longer than the next detail level, which panicked (Haar) or
shifted the reconstruction.
---
 src/wavelet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 4451c05..ed06cb9 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -77,6 +77,9 @@ where
 {
     let mut current = approx.to_vec();
     for d in details.iter().rev() {
+        // A level whose input length was odd reconstructs one sample more than
+        // the next level holds coefficients; drop that padding sample.
+        current.truncate(d.len());
         current = inverse(&current, d);
     }
     current
-- 
2.43.0


From 006c57c19aae1a6a046a51aa8c3c491450fc2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 20/22] fix: endless recursion of Float trig methods without
 std

In core f32/f64 have no inherent sin/cos/sin_cos/mul_add, so the impls called
themselves. Use libm there.
---
 src/num.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index af16bca..b963ad4 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -47,22 +47,43 @@ impl Float for f32 {
     fn from_f32(x: f32) -> Self {
         x
     }
+    #[cfg(feature = "std")]
     fn cos(self) -> Self {
         f32::cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn cos(self) -> Self {
+        libm::cosf(self)
+    }
+    #[cfg(feature = "std")]
     fn sin(self) -> Self {
         f32::sin(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin(self) -> Self {
+        libm::sinf(self)
+    }
+    #[cfg(feature = "std")]
     fn sin_cos(self) -> (Self, Self) {
         f32::sin_cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin_cos(self) -> (Self, Self) {
+        libm::sincosf(self)
+    }
     fn pi() -> Self {
         PI32
     }
+    #[cfg(feature = "std")]
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
         f32::mul_add(self, a, b)
     }
+    #[cfg(not(feature = "std"))]
+    #[inline(always)]
+    fn mul_add(self, a: Self, b: Self) -> Self {
+        libm::fmaf(self, a, b)
+    }
 }
 
 ///
@@ -84,22 +105,43 @@ impl Float for f64 {
     fn from_f32(x: f32) -> Self {
         x as f64
     }
+    #[cfg(feature = "std")]
     fn cos(self) -> Self {
         f64::cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn cos(self) -> Self {
+        libm::cos(self)
+    }
+    #[cfg(feature = "std")]
     fn sin(self) -> Self {
         f64::sin(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin(self) -> Self {
+        libm::sin(self)
+    }
+    #[cfg(feature = "std")]
     fn sin_cos(self) -> (Self, Self) {
         f64::sin_cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin_cos(self) -> (Self, Self) {
+        libm::sincos(self)
+    }
     fn pi() -> Self {
         core::f64::consts::PI
     }
+    #[cfg(feature = "std")]
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
         f64::mul_add(self, a, b)
     }
+    #[cfg(not(feature = "std"))]
+    #[inline(always)]
+    fn mul_add(self, a: Self, b: Self) -> Self {
+        libm::fma(self, a, b)
+    }
 }
 
 #[repr(C)]
-- 
2.43.0


From 036e4a425329f9784fc935fbdb363021413bc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 21/22] fix: reduce the Bluestein chirp exponent before
 converting it to f32

---
 src/fft.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 8923446..dc92264 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -414,7 +414,9 @@ impl<T: Float> FftPlanner<T> {
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-                let angle = T::pi() * T::from_f32((i * i) as f32) / T::from_f32(n as f32);
+                // The chirp has period 2n in i^2; the unreduced square is not exact in f32.
+                let sq = (i as u64 * i as u64) % (2 * n as u64);
+                let angle = T::pi() * T::from_f32(sq as f32) / T::from_f32(n as f32);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
-- 
2.43.0


From 821e624e091166b86d808477e3113307872c2b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 22/22] fix: saturate the parallel FFT threshold heuristic
 instead of overflowing

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index dc92264..4983d08 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -154,7 +154,7 @@ fn parallel_fft_threshold() -> usize {
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
             );
-            per_core_min * env_parallel_fft_threads()
+            per_core_min.saturating_mul(env_parallel_fft_threads())
         }
     })
 }
@@ -276,7 +276,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
     #[cfg(not(feature = "std"))]
     {
@@ -302,7 +302,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
 }
 
-- 
2.43.0

