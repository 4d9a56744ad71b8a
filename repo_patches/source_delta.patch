From 54387dde76fbd8b3261a13782bcaa9a80101ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 01/13] fix: TP does not panic while idle and can be
 retriggered

An idle TP called without a rising edge hit unreachable!(). A pulse whose
input was released before the pulse ended never left the expired state.
---
 src/timers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1661c8d..68006f8 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -89,7 +89,8 @@ pub extern "C" fn TP(timer: &mut TimerParams) {
         if timer.is_in_preset_range() {
             true
         } else {
-            if timer.input_falling_edge() {
+            // The input may have been released while the pulse was still running
+            if !timer.input {
                 timer.reset()
             }
             false
@@ -98,7 +99,7 @@ pub extern "C" fn TP(timer: &mut TimerParams) {
         timer.start();
         true
     } else {
-        unreachable!("We should not get here, if we do write the failing test for it.")
+        false
     };
     timer.set_output(output);
     timer.input_edge.set(timer.input);
-- 
2.43.0


From 05b75c099894495328d7d9fc5645c05050e14ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 02/13] fix: SHL and SHR return 0 when shifting by the type's
 width or more

---
 src/bit_shift_functions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bit_shift_functions.rs b/src/bit_shift_functions.rs
index 48510fc..e34bd39 100644
--- a/src/bit_shift_functions.rs
+++ b/src/bit_shift_functions.rs
@@ -4,56 +4,56 @@
 #[no_mangle]
 /// Shift left operation on bytes
 pub fn SHL__BYTE(input: u8, n: u32) -> u8 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on word
 pub fn SHL__WORD(input: u16, n: u32) -> u16 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on dword
 pub fn SHL__DWORD(input: u32, n: u32) -> u32 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on lword
 pub fn SHL__LWORD(input: u64, n: u32) -> u64 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on bytes
 pub fn SHR__BYTE(input: u8, n: u32) -> u8 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on word
 pub fn SHR__WORD(input: u16, n: u32) -> u16 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on dword
 pub fn SHR__DWORD(input: u32, n: u32) -> u32 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on lword
 pub fn SHR__LWORD(input: u64, n: u32) -> u64 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From 9abbe2ee9b33036bf558b5667d1a340135778482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 03/13] fix: bit shift and endianness functions use the C
 calling convention

They are exported to compiled Structured Text code, which calls them with the
C ABI; the ABI of plain Rust functions is unspecified.
---
 src/bit_shift_functions.rs             | 32 +++++++++++++-------------
 src/endianness_conversion_functions.rs | 24 +++++++++----------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/bit_shift_functions.rs b/src/bit_shift_functions.rs
index e34bd39..69b22b9 100644
--- a/src/bit_shift_functions.rs
+++ b/src/bit_shift_functions.rs
@@ -3,111 +3,111 @@
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on bytes
-pub fn SHL__BYTE(input: u8, n: u32) -> u8 {
+pub extern "C" fn SHL__BYTE(input: u8, n: u32) -> u8 {
     input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on word
-pub fn SHL__WORD(input: u16, n: u32) -> u16 {
+pub extern "C" fn SHL__WORD(input: u16, n: u32) -> u16 {
     input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on dword
-pub fn SHL__DWORD(input: u32, n: u32) -> u32 {
+pub extern "C" fn SHL__DWORD(input: u32, n: u32) -> u32 {
     input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on lword
-pub fn SHL__LWORD(input: u64, n: u32) -> u64 {
+pub extern "C" fn SHL__LWORD(input: u64, n: u32) -> u64 {
     input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on bytes
-pub fn SHR__BYTE(input: u8, n: u32) -> u8 {
+pub extern "C" fn SHR__BYTE(input: u8, n: u32) -> u8 {
     input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on word
-pub fn SHR__WORD(input: u16, n: u32) -> u16 {
+pub extern "C" fn SHR__WORD(input: u16, n: u32) -> u16 {
     input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on dword
-pub fn SHR__DWORD(input: u32, n: u32) -> u32 {
+pub extern "C" fn SHR__DWORD(input: u32, n: u32) -> u32 {
     input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on lword
-pub fn SHR__LWORD(input: u64, n: u32) -> u64 {
+pub extern "C" fn SHR__LWORD(input: u64, n: u32) -> u64 {
     input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Rotate left operation on bytes
-pub fn ROL__BYTE(input: u8, n: u32) -> u8 {
+pub extern "C" fn ROL__BYTE(input: u8, n: u32) -> u8 {
     input.rotate_left(n)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Rotate left operation on word
-pub fn ROL__WORD(input: u16, n: u32) -> u16 {
+pub extern "C" fn ROL__WORD(input: u16, n: u32) -> u16 {
     input.rotate_left(n)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Rotate left operation on dword
-pub fn ROL__DWORD(input: u32, n: u32) -> u32 {
+pub extern "C" fn ROL__DWORD(input: u32, n: u32) -> u32 {
     input.rotate_left(n)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Rotate left operation on lword
-pub fn ROL__LWORD(input: u64, n: u32) -> u64 {
+pub extern "C" fn ROL__LWORD(input: u64, n: u32) -> u64 {
     input.rotate_left(n)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Rotate right operation on bytes
-pub fn ROR__BYTE(input: u8, n: u32) -> u8 {
+pub extern "C" fn ROR__BYTE(input: u8, n: u32) -> u8 {
     input.rotate_right(n)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Rotate right operation on word
-pub fn ROR__WORD(input: u16, n: u32) -> u16 {
+pub extern "C" fn ROR__WORD(input: u16, n: u32) -> u16 {
     input.rotate_right(n)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Rotate right operation on dword
-pub fn ROR__DWORD(input: u32, n: u32) -> u32 {
+pub extern "C" fn ROR__DWORD(input: u32, n: u32) -> u32 {
     input.rotate_right(n)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Rotate right operation on lword
-pub fn ROR__LWORD(input: u64, n: u32) -> u64 {
+pub extern "C" fn ROR__LWORD(input: u64, n: u32) -> u64 {
     input.rotate_right(n)
 }
diff --git a/src/endianness_conversion_functions.rs b/src/endianness_conversion_functions.rs
index 336c453..01f2fa5 100644
--- a/src/endianness_conversion_functions.rs
+++ b/src/endianness_conversion_functions.rs
@@ -7,7 +7,7 @@ macro_rules! define_endianness_for_int_types {
             ///
             #[allow(non_snake_case)]
             #[no_mangle]
-            pub fn [<TO_BIG_ENDIAN__ $st_type>](input: $t) -> $t {
+            pub extern "C" fn [<TO_BIG_ENDIAN__ $st_type>](input: $t) -> $t {
                 return input.to_be();
             }
 
@@ -16,7 +16,7 @@ macro_rules! define_endianness_for_int_types {
             ///
             #[allow(non_snake_case)]
             #[no_mangle]
-            pub fn [<TO_LITTLE_ENDIAN__ $st_type>](input: $t) -> $t {
+            pub extern "C" fn [<TO_LITTLE_ENDIAN__ $st_type>](input: $t) -> $t {
                 return input.to_le();
             }
 
@@ -25,7 +25,7 @@ macro_rules! define_endianness_for_int_types {
             ///
             #[allow(non_snake_case)]
             #[no_mangle]
-            pub fn [<FROM_BIG_ENDIAN__ $st_type>](input: $t) -> $t {
+            pub extern "C" fn [<FROM_BIG_ENDIAN__ $st_type>](input: $t) -> $t {
                 return input.to_le();
             }
 
@@ -34,7 +34,7 @@ macro_rules! define_endianness_for_int_types {
             ///
             #[allow(non_snake_case)]
             #[no_mangle]
-            pub fn [<FROM_LITTLE_ENDIAN__ $st_type>](input: $t) -> $t {
+            pub extern "C" fn [<FROM_LITTLE_ENDIAN__ $st_type>](input: $t) -> $t {
                 return input.to_be();
             }
         }
@@ -61,7 +61,7 @@ define_endianness_for_int_types!(DATE_AND_TIME, i64);
 ///
 #[allow(non_snake_case)]
 #[no_mangle]
-pub fn TO_BIG_ENDIAN__REAL(input: f32) -> f32 {
+pub extern "C" fn TO_BIG_ENDIAN__REAL(input: f32) -> f32 {
     f32::from_be_bytes(input.to_be_bytes())
 }
 
@@ -70,7 +70,7 @@ pub fn TO_BIG_ENDIAN__REAL(input: f32) -> f32 {
 ///
 #[allow(non_snake_case)]
 #[no_mangle]
-pub fn TO_LITTLE_ENDIAN__REAL(input: f32) -> f32 {
+pub extern "C" fn TO_LITTLE_ENDIAN__REAL(input: f32) -> f32 {
     f32::from_le_bytes(input.to_le_bytes())
 }
 
@@ -79,7 +79,7 @@ pub fn TO_LITTLE_ENDIAN__REAL(input: f32) -> f32 {
 ///
 #[allow(non_snake_case)]
 #[no_mangle]
-pub fn FROM_BIG_ENDIAN__REAL(input: f32) -> f32 {
+pub extern "C" fn FROM_BIG_ENDIAN__REAL(input: f32) -> f32 {
     f32::from_le_bytes(input.to_le_bytes())
 }
 
@@ -88,7 +88,7 @@ pub fn FROM_BIG_ENDIAN__REAL(input: f32) -> f32 {
 ///
 #[allow(non_snake_case)]
 #[no_mangle]
-pub fn FROM_LITTLE_ENDIAN__REAL(input: f32) -> f32 {
+pub extern "C" fn FROM_LITTLE_ENDIAN__REAL(input: f32) -> f32 {
     f32::from_be_bytes(input.to_be_bytes())
 }
 
@@ -97,7 +97,7 @@ pub fn FROM_LITTLE_ENDIAN__REAL(input: f32) -> f32 {
 ///
 #[allow(non_snake_case)]
 #[no_mangle]
-pub fn TO_BIG_ENDIAN__LREAL(input: f64) -> f64 {
+pub extern "C" fn TO_BIG_ENDIAN__LREAL(input: f64) -> f64 {
     f64::from_be_bytes(input.to_be_bytes())
 }
 
@@ -106,7 +106,7 @@ pub fn TO_BIG_ENDIAN__LREAL(input: f64) -> f64 {
 ///
 #[allow(non_snake_case)]
 #[no_mangle]
-pub fn TO_LITTLE_ENDIAN__LREAL(input: f64) -> f64 {
+pub extern "C" fn TO_LITTLE_ENDIAN__LREAL(input: f64) -> f64 {
     f64::from_le_bytes(input.to_le_bytes())
 }
 
@@ -115,7 +115,7 @@ pub fn TO_LITTLE_ENDIAN__LREAL(input: f64) -> f64 {
 ///
 #[allow(non_snake_case)]
 #[no_mangle]
-pub fn FROM_BIG_ENDIAN__LREAL(input: f64) -> f64 {
+pub extern "C" fn FROM_BIG_ENDIAN__LREAL(input: f64) -> f64 {
     f64::from_le_bytes(input.to_le_bytes())
 }
 
@@ -124,6 +124,6 @@ pub fn FROM_BIG_ENDIAN__LREAL(input: f64) -> f64 {
 ///
 #[allow(non_snake_case)]
 #[no_mangle]
-pub fn FROM_LITTLE_ENDIAN__LREAL(input: f64) -> f64 {
+pub extern "C" fn FROM_LITTLE_ENDIAN__LREAL(input: f64) -> f64 {
     f64::from_be_bytes(input.to_be_bytes())
 }
-- 
2.43.0


From b4b5a9ac1dd70cc8cc23f013bbaf258abfb14ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 04/13] fix: CONCAT_DATE and CONCAT_TOD reject 64-bit
 components that do not fit instead of truncating them

---
 src/date_time_extra_functions.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 2fe83b9..be2d645 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -60,7 +60,12 @@ pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    // if a component does not fit in the target data type -> panic
+    concat_date(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -69,7 +74,12 @@ pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__ULINT(in1: u64, in2: u64, in3: u64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    // if a component does not fit in the target data type -> panic
+    concat_date(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -144,7 +154,13 @@ pub extern "C" fn CONCAT_TOD__UDINT(in1: u32, in2: u32, in3: u32, in4: u32) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    // if a component does not fit in the target data type -> panic
+    concat_tod(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+        in4.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -153,7 +169,13 @@ pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i6
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    // if a component does not fit in the target data type -> panic
+    concat_tod(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+        in4.try_into().unwrap(),
+    )
 }
 
 /// .
-- 
2.43.0


From 634c1c8ce70cfb1a8678e1d655df37a19eb93099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 05/13] fix: DELETE and REPLACE reject negative character
 counts

---
 src/string_functions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index dfbb925..f47904d 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -515,7 +515,7 @@ pub unsafe extern "C" fn DELETE_EXT__STRING(
     // correct for 0-indexing
     let pos = pos as usize - 1;
     let ndel = num_chars_to_delete as usize;
-    if ndel + pos > nchars {
+    if num_chars_to_delete < 0 || ndel + pos > nchars {
         panic!(
             r#"Cannot delete {} characters starting from index {}.
             Index out of bounds.
@@ -558,7 +558,7 @@ pub unsafe extern "C" fn DELETE_EXT__WSTRING(
     // correct for 0-indexing
     let pos = pos as usize - 1;
     let ndel = num_chars_to_delete as usize;
-    if ndel + pos > nchars {
+    if num_chars_to_delete < 0 || ndel + pos > nchars {
         panic!(
             r#"Cannot delete {} characters starting from index {}.
             Index out of bounds.
@@ -604,12 +604,12 @@ pub unsafe extern "C" fn REPLACE_EXT__STRING(
     let pos = (pos - 1) as usize;
     let nreplace = num_chars_to_replace as usize;
 
-    if nreplace + pos > nbase {
+    if num_chars_to_replace < 0 || nreplace + pos > nbase {
         panic!(
             r#"Cannot replace {} characters starting from index {}.
             Index out of bounds.
             "#,
-            nreplace,
+            num_chars_to_replace,
             pos + 1
         )
     }
@@ -651,12 +651,12 @@ pub unsafe extern "C" fn REPLACE_EXT__WSTRING(
     // correct for 0-indexing
     let pos = (pos - 1) as usize;
     let nreplace = num_chars_to_replace as usize;
-    if nreplace + pos > nbase {
+    if num_chars_to_replace < 0 || nreplace + pos > nbase {
         panic!(
             r#"Cannot replace {} characters starting from index {}.
             Index out of bounds.
             "#,
-            nreplace,
+            num_chars_to_replace,
             pos + 1
         )
     }
-- 
2.43.0


From f83bf0e772038e32d8c08ccf983d122380604224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 06/13] fix: LREAL_TO_STRING and REAL_TO_STRING use scientific
 notation for large negative values

---
 src/extra_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 441fe5c..13b7274 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -59,7 +59,7 @@ pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
-    if input.floor() < 1e14 {
+    if input.abs() < 1e14 {
         write!(&mut *buf, "{input:.6}").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}").unwrap()
@@ -77,7 +77,7 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     // float: 23 bits are used for the mantissa (about 7 decimal digits)
 
     // TODO: discuss when scientific notation should be displayed
-    if input.floor() < 1e6 {
+    if input.abs() < 1e6 {
         write!(&mut *buf, "{input:.6}").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}").unwrap()
-- 
2.43.0


From 5b1a36ea82ab2c387b3cbf6c3991a1331cf4710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 07/13] fix: string results are null-terminated

---
 src/extra_functions.rs   | 20 ++++++++++----------
 src/string_conversion.rs |  1 +
 src/string_functions.rs  |  4 ++++
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 13b7274..b160373 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -24,7 +24,7 @@ const DEFAULT_STRING_LEN: usize = 81;
 pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -36,7 +36,7 @@ pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -47,7 +47,7 @@ pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
 #[no_mangle]
 pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -60,9 +60,9 @@ pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
     if input.abs() < 1e14 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -78,9 +78,9 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
 
     // TODO: discuss when scientific notation should be displayed
     if input.abs() < 1e6 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -218,7 +218,7 @@ pub unsafe extern "C" fn DT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}-{time}").unwrap();
+    write!(&mut *buf, "{date}-{time}\0").unwrap();
 
     0
 }
@@ -232,7 +232,7 @@ pub unsafe extern "C" fn DATE_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let date = datetime.to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}").unwrap();
+    write!(&mut *buf, "{date}\0").unwrap();
 
     0
 }
@@ -246,7 +246,7 @@ pub unsafe extern "C" fn TOD_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{time}").unwrap();
+    write!(&mut *buf, "{time}\0").unwrap();
 
     0
 }
diff --git a/src/string_conversion.rs b/src/string_conversion.rs
index 2b18a2e..3a002fd 100644
--- a/src/string_conversion.rs
+++ b/src/string_conversion.rs
@@ -39,6 +39,7 @@ pub unsafe extern "C" fn STRING_TO_WSTRING_EXT(src: *const u8, dest: *mut u16) -
             dest = dest.add(1);
         }
     }
+    *dest = 0;
 
     0
 }
diff --git a/src/string_functions.rs b/src/string_functions.rs
index f47904d..c79a3f2 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -715,6 +715,8 @@ pub unsafe extern "C" fn CONCAT_EXT__STRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    // terminate the result even if there is nothing to concatenate
+    *dest = 0;
 
     0
 }
@@ -763,6 +765,8 @@ pub unsafe extern "C" fn CONCAT_EXT__WSTRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    // terminate the result even if there is nothing to concatenate
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From f3c9767fd7e56cffd9417b3011baa29bd23061a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 08/13] fix: TIME_TO_STRING handles negative durations and any
 destination buffer content

---
 src/extra_functions.rs | 44 +++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index b160373..e69baf0 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -172,39 +172,31 @@ pub extern "C" fn TIME() -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
-    let mut dest = dest;
-    let literals = parse_timestamp(input);
-    literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
-        let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-        write!(&mut *buf, "{}{}", it.0, it.1).unwrap();
-        let idx = buf.iter().position(|&c| c == 0).unwrap();
-        dest = dest.add(idx);
-    });
+    let mut buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
+    if input < 0 {
+        write!(buf, "-").unwrap();
+    }
+    for (value, unit) in parse_timestamp(input).iter().filter(|it| it.0 != 0) {
+        write!(buf, "{value}{unit}").unwrap();
+    }
+    write!(buf, "\0").unwrap();
 
     0
 }
 
-fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
-    let datetime = chrono::Utc.timestamp_nanos(timestamp_nanos);
-    let (nanos, micros, millis, seconds, minutes, hours) = (
-        datetime.timestamp_subsec_nanos() % 1000,
-        datetime.timestamp_subsec_micros() % 1000,
-        datetime.timestamp_subsec_millis(),
-        datetime.second(),
-        datetime.minute(),
-        datetime.hour(),
-    );
-    let nanos_per_day = 1e9 as i64 * 3600 * 24;
-    let days = (timestamp_nanos / nanos_per_day) as u32;
+fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u64, &'a str); 7] {
+    let nanos = timestamp_nanos.unsigned_abs();
+    let (micros, millis, seconds) = (nanos / 1_000, nanos / 1_000_000, nanos / 1_000_000_000);
+    let (minutes, hours, days) = (seconds / 60, seconds / 3_600, seconds / 86_400);
 
     [
         (days, "d"),
-        (hours, "h"),
-        (minutes, "m"),
-        (seconds, "s"),
-        (millis, "ms"),
-        (micros, "us"),
-        (nanos, "ns"),
+        (hours % 24, "h"),
+        (minutes % 60, "m"),
+        (seconds % 60, "s"),
+        (millis % 1_000, "ms"),
+        (micros % 1_000, "us"),
+        (nanos % 1_000, "ns"),
     ]
 }
 
-- 
2.43.0


From 60011b521d52e94ce4ebfe9ce8bf0beddceecb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 09/13] fix: timers treat a zero-initialized instance as idle

---
 src/timers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/timers.rs b/src/timers.rs
index 68006f8..8ee3e44 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -20,6 +20,8 @@ pub struct TimerParams {
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
+    // Instances are zero-initialized by their user, and a zeroed `start_time` is not `None`
+    running: bool,
     start_time: Option<Instant>,
 }
 
@@ -28,16 +30,18 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        self.start_time.is_some()
+        self.running
     }
 
     fn start(&mut self) {
         self.start_time = Some(Instant::now());
+        self.running = true;
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
         self.start_time = None;
+        self.running = false;
         self.set_elapsed_time(0);
     }
 
-- 
2.43.0


From b336123c097c744f6ef108dc6570b07910be431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:37 +0000
Subject: [PATCH 10/13] fix: SPLIT_LDT specialisations are implemented in ST,
 not external

---
 iec61131-st/date_time_extra_functions.st | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/iec61131-st/date_time_extra_functions.st b/iec61131-st/date_time_extra_functions.st
index bc28622..da876c3 100644
--- a/iec61131-st/date_time_extra_functions.st
+++ b/iec61131-st/date_time_extra_functions.st
@@ -796,7 +796,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for INT *)
-{external}
 FUNCTION SPLIT_LDT__INT : INT
 VAR_INPUT
 	in : LDT;
@@ -814,7 +813,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UINT *)
-{external}
 FUNCTION SPLIT_LDT__UINT : INT
 VAR_INPUT
 	in : LDT;
@@ -832,7 +830,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for DINT *)
-{external}
 FUNCTION SPLIT_LDT__DINT : INT
 VAR_INPUT
 	in : LDT;
@@ -850,7 +847,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UDINT *)
-{external}
 FUNCTION SPLIT_LDT__UDINT : INT
 VAR_INPUT
 	in : LDT;
@@ -868,7 +864,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for LINT *)
-{external}
 FUNCTION SPLIT_LDT__LINT : INT
 VAR_INPUT
 	in : LDT;
@@ -886,7 +881,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for ULINT *)
-{external}
 FUNCTION SPLIT_LDT__ULINT : INT
 VAR_INPUT
 	in : LDT;
-- 
2.43.0


From 34b48b7f617eea810beb040a83255db831a1e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 11/13] fix: CHAR_TO_STRING and WCHAR_TO_WSTRING read past
 their one-unit argument

---
 iec61131-st/string_conversion.st | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/iec61131-st/string_conversion.st b/iec61131-st/string_conversion.st
index 31b1919..418501d 100644
--- a/iec61131-st/string_conversion.st
+++ b/iec61131-st/string_conversion.st
@@ -85,10 +85,12 @@ VAR_INPUT
 	in : WCHAR;
 END_VAR
 VAR
-	ptr : REF_TO WSTRING;
+	str : WSTRING[1];
+	ptr : REF_TO WCHAR;
 END_VAR
-	ptr := &in;
-	WCHAR_TO_WSTRING := ptr^;
+	ptr := &str;
+	ptr^ := in;
+	WCHAR_TO_WSTRING := str;
 END_FUNCTION
 
 (********************
@@ -113,10 +115,12 @@ VAR_INPUT
 	in : CHAR;
 END_VAR
 VAR
-	ptr : REF_TO STRING;
+	str : STRING[1];
+	ptr : REF_TO CHAR;
 END_VAR
-	ptr := &in;
-	CHAR_TO_STRING := ptr^;
+	ptr := &str;
+	ptr^ := in;
+	CHAR_TO_STRING := str;
 END_FUNCTION
 
 (********************
-- 
2.43.0


From 5697b798cdc277e355669830de1da5c5138f993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 12/13] fix: timers decide Q and ET by the same reading of the
 clock

---
 src/timers.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 8ee3e44..8d010e9 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -49,21 +49,24 @@ impl TimerParams {
         self.elapsed_time = duration;
     }
 
-    /// Sets the elapsed time to either the preset time or the real elapsed time, whatever is smaller
-    fn update_elapsed_time(&mut self) {
+    /// Sets the elapsed time to either the preset time or the real elapsed time, whatever is smaller.
+    /// Returns the real elapsed time: the output has to be decided by the same reading of the clock.
+    fn update_elapsed_time(&mut self) -> Option<Duration> {
+        let run_time = self.get_run_time();
         if self.is_running() {
             self.set_elapsed_time(std::cmp::min(
                 self.preset_time,
-                self.get_run_time()
+                run_time
                     .expect("Timer should be running")
                     .as_nanos() as i64,
             ));
         }
+        run_time
     }
 
-    fn is_in_preset_range(&self) -> bool {
+    fn is_in_preset_range(&self, run_time: Option<Duration>) -> bool {
         let duration = Duration::from_nanos(self.preset_time as u64);
-        self.get_run_time().map_or(false, |it| it <= duration)
+        run_time.map_or(false, |it| it <= duration)
     }
 
     fn get_run_time(&self) -> Option<Duration> {
@@ -88,9 +91,9 @@ impl TimerParams {
 pub extern "C" fn TP(timer: &mut TimerParams) {
     //If timer is active (start time set)
     let output = if timer.is_running() {
-        timer.update_elapsed_time();
+        let run_time = timer.update_elapsed_time();
         // If time elapsed within range
-        if timer.is_in_preset_range() {
+        if timer.is_in_preset_range(run_time) {
             true
         } else {
             // The input may have been released while the pulse was still running
@@ -116,8 +119,8 @@ pub extern "C" fn TON(timer: &mut TimerParams) {
         //Timer was strarted at some point
         if timer.is_running() {
             //Timer is still running
-            timer.update_elapsed_time();
-            !timer.is_in_preset_range()
+            let run_time = timer.update_elapsed_time();
+            !timer.is_in_preset_range(run_time)
             //Timer stopped, but the input is new
         } else if timer.input_rising_edge() {
             timer.start();
@@ -147,8 +150,8 @@ pub extern "C" fn TOF(timer: &mut TimerParams) {
         timer.start();
         true
     } else if timer.is_running() {
-        timer.update_elapsed_time();
-        timer.is_in_preset_range()
+        let run_time = timer.update_elapsed_time();
+        timer.is_in_preset_range(run_time)
     } else {
         false
     };
-- 
2.43.0


From 8d0e3b46f0ac71e1efb1f27b194052dd049ec5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:01 +0000
Subject: [PATCH 13/13] fix: a null string pointer is read as the empty string

---
 src/string_functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index c79a3f2..210ca3f 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -33,6 +33,10 @@ pub unsafe fn get_null_terminated_len<T: num::PrimInt>(src: *const T) -> usize {
 ///
 /// Works on raw pointers, inherently unsafe.
 pub unsafe fn ptr_to_slice<'a, T: num::PrimInt>(src: *const T) -> &'a [T] {
+    if src.is_null() {
+        return &[];
+    }
+
     let nbytes = get_null_terminated_len(src);
     std::slice::from_raw_parts(src, nbytes)
 }
-- 
2.43.0

