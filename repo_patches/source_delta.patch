From ce8427528353312839f7e4e6b07ba96e2ea3e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 1/4] fix: zero the two unused FFT inputs in Dst1ConvertToFft

process_dst1_with_scratch left fft_buffer[0] and fft_buffer[len + 1] holding
whatever the caller's scratch contained, so the output depended on it.
---
 src/algorithm/type1_convert_to_fft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algorithm/type1_convert_to_fft.rs b/src/algorithm/type1_convert_to_fft.rs
index 6e5f9a5..a40b7da 100644
--- a/src/algorithm/type1_convert_to_fft.rs
+++ b/src/algorithm/type1_convert_to_fft.rs
@@ -169,11 +169,13 @@ impl<T: DctNum> Dst1<T> for Dst1ConvertToFft<T> {
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
         // the first half of the FFT input will be a 0, followed by the input array
+        fft_buffer[0] = Complex::from(T::zero());
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().skip(1)) {
             *fft_cell = Complex::from(input_val);
         }
 
         // the second half of the FFT input will be a 0, followed by the input array, reversed and negated
+        fft_buffer[buffer.len() + 1] = Complex::from(T::zero());
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().rev()) {
             *fft_cell = Complex::from(-*input_val);
         }
-- 
2.43.0


From 5f0392090faed0f38b7818032dd226d17217bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 2/4] fix: initialise every FFT input in Dst6And7ConvertToFft

process_dst6_with_scratch only wrote the imaginary part of the odd FFT inputs
and process_dst7_with_scratch never wrote the first one, so the outputs
depended on the previous contents of the caller's scratch.
---
 src/algorithm/type6and7_convert_to_fft.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/type6and7_convert_to_fft.rs b/src/algorithm/type6and7_convert_to_fft.rs
index c630774..5b29bfc 100644
--- a/src/algorithm/type6and7_convert_to_fft.rs
+++ b/src/algorithm/type6and7_convert_to_fft.rs
@@ -65,7 +65,10 @@ impl<T: DctNum> Dst6<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
-        // Copy the buffer to the odd imaginary components of the FFT inputs
+        // Copy the buffer to the odd imaginary components of the FFT inputs. Everything else is zero
+        for fft_cell in fft_buffer.iter_mut() {
+            *fft_cell = Complex::from(T::zero());
+        }
         for i in 0..buffer.len() {
             fft_buffer[i * 2 + 1].im = buffer[i];
         }
@@ -95,6 +98,8 @@ impl<T: DctNum> Dst7<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
+        fft_buffer[0] = Complex::from(T::zero());
+
         // Copy all the even-indexed elements to the back of the FFT buffer array
         let even_count = (buffer.len() + 1) / 2;
         for i in 0..even_count {
-- 
2.43.0


From 043d38abff150982c56f6a0feae8df2132e99f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 3/4] fix: give Type2And3SplitRadix enough scratch for its
 inner DCTs

The inner DCTs were always handed the buffer as scratch. An inner DCT that
needs more than that (for example Type2And3ConvertToFft around an FFT with a
large in-place scratch) made process_* panic on correctly sized arguments.
---
 src/algorithm/type2and3_splitradix.rs | 47 ++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index 62ce78b..2bc4184 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -32,6 +32,7 @@ pub struct Type2And3SplitRadix<T> {
     half_dct: Arc<dyn TransformType2And3<T>>,
     quarter_dct: Arc<dyn TransformType2And3<T>>,
     twiddles: Box<[Complex<T>]>,
+    scratch_len: usize,
 }
 
 impl<T: DctNum> Type2And3SplitRadix<T> {
@@ -56,10 +57,21 @@ impl<T: DctNum> Type2And3SplitRadix<T> {
             .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
             .collect();
 
+        // the inner DCTs use our buffer as their scratch space. if that isn't enough, we need some extra
+        let inner_scratch = half_dct
+            .get_scratch_len()
+            .max(quarter_dct.get_scratch_len());
+        let scratch_len = if inner_scratch <= len {
+            len
+        } else {
+            len + inner_scratch
+        };
+
         Self {
             half_dct: half_dct,
             quarter_dct: quarter_dct,
             twiddles: twiddles.into_boxed_slice(),
+            scratch_len,
         }
     }
 }
@@ -73,7 +85,8 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         //preprocess the data by splitting it up into vectors of size n/2, n/4, and n/4
-        let (input_dct2, input_dct4) = scratch.split_at_mut(half_len);
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+        let (input_dct2, input_dct4) = self_scratch.split_at_mut(half_len);
         let (input_dct4_even, input_dct4_odd) = input_dct4.split_at_mut(quarter_len);
 
         for i in 0..quarter_len {
@@ -103,12 +116,18 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
             
         }
 
-        // compute the recursive DCT2s, using the original buffer as scratch space
-        self.half_dct.process_dct2_with_scratch(input_dct2, buffer);
+        // compute the recursive DCT2s, using the original buffer as scratch space unless they need more than that
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
+        self.half_dct
+            .process_dct2_with_scratch(input_dct2, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_even, buffer);
+            .process_dct2_with_scratch(input_dct4_even, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_odd, buffer);
+            .process_dct2_with_scratch(input_dct4_odd, inner_scratch);
 
         unsafe {
             //post process the 3 DCT2 outputs. the first few and the last will be done outside of the loop
@@ -155,7 +174,8 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         // divide the output into 3 sub-lists to use for our inner DCTs, one of size N/2 and two of size N/4
-        let (recursive_input_evens, recursive_input_odds) = scratch.split_at_mut(half_len);
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+        let (recursive_input_evens, recursive_input_odds) = self_scratch.split_at_mut(half_len);
         let (recursive_input_n1, recursive_input_n3) =
             recursive_input_odds.split_at_mut(quarter_len);
 
@@ -183,13 +203,18 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
             }
         }
 
-        //perform our recursive DCTs, using the original buffer as scratch space
+        //perform our recursive DCTs, using the original buffer as scratch space unless they need more than that
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
         self.half_dct
-            .process_dct3_with_scratch(recursive_input_evens, buffer);
+            .process_dct3_with_scratch(recursive_input_evens, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n1, buffer);
+            .process_dct3_with_scratch(recursive_input_n1, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n3, buffer);
+            .process_dct3_with_scratch(recursive_input_n3, inner_scratch);
 
         //merge the results. we're going to combine 2 separate things:
         // - merging the two smaller DCT3 outputs into a DCT4 output
@@ -240,7 +265,7 @@ impl<T> Length for Type2And3SplitRadix<T> {
 }
 impl<T> RequiredScratch for Type2And3SplitRadix<T> {
     fn get_scratch_len(&self) -> usize {
-        self.len()
+        self.scratch_len
     }
 }
 
-- 
2.43.0


From 05eee216a848ca25361d14cec31546497244fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 4/4] fix: don't return a cached MDCT planned with a different
 window

plan_mdct cached instances by length alone, so the second plan_mdct call for a
length ignored its window_fn and returned the first call's window.
---
 src/plan.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/plan.rs b/src/plan.rs
index addb08a..e1b15da 100644
--- a/src/plan.rs
+++ b/src/plan.rs
@@ -54,7 +54,8 @@ pub struct DctPlanner<T: DctNum> {
     dct8_cache: HashMap<usize, Arc<dyn Dct8<T>>>,
     dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,
 
-    mdct_cache: HashMap<usize, Arc<dyn Mdct<T>>>,
+    // the window is part of what makes a MDCT instance, so it's stored alongside the instance
+    mdct_cache: HashMap<usize, (Vec<T>, Arc<dyn Mdct<T>>)>,
 }
 impl<T: DctNum> DctPlanner<T> {
     pub fn new() -> Self {
@@ -336,12 +337,14 @@ impl<T: DctNum> DctPlanner<T> {
     where
         F: (FnOnce(usize) -> Vec<T>),
     {
-        if self.mdct_cache.contains_key(&len) {
-            Arc::clone(self.mdct_cache.get(&len).unwrap())
-        } else {
-            let result = self.plan_new_mdct(len, window_fn);
-            self.mdct_cache.insert(len, Arc::clone(&result));
-            result
+        let window = window_fn(len * 2);
+        match self.mdct_cache.get(&len) {
+            Some((cached_window, cached)) if *cached_window == window => Arc::clone(cached),
+            _ => {
+                let result = self.plan_new_mdct(len, |_| window.clone());
+                self.mdct_cache.insert(len, (window, Arc::clone(&result)));
+                result
+            }
         }
     }
 
-- 
2.43.0

