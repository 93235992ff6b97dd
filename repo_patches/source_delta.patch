From 192de10d7e76acef4ed51a2deec8da1e99d79f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 01/20] fix: bounds checks of @ ! move and the inner
 interpreter must not wrap around

---
 src/core.rs   | 14 ++++++++------
 src/memory.rs |  6 +++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7b1c475..0d5cbb1 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -801,7 +801,7 @@ pub trait Core: Sized {
     fn run(&mut self) {
         let mut ip = self.state().instruction_pointer;
         while self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
+            && ip <= self.data_space().limit() - mem::size_of::<isize>()
         {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
@@ -816,7 +816,7 @@ pub trait Core: Sized {
     fn forth(&mut self) -> bool {
         let mut ip = self.state().instruction_pointer;
         if self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
+            && ip <= self.data_space().limit() - mem::size_of::<isize>()
         {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
@@ -2780,7 +2780,7 @@ pub trait Core: Sized {
     /// `x` is the value stored at `a-addr`.
     fn fetch(&mut self) {
         let t = self.s_stack().pop() as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t && t <= self.data_space().limit() - mem::size_of::<isize>()
         {
             let value = unsafe { self.data_space().get_isize(t as usize) as isize };
             self.s_stack().push(value);
@@ -2795,7 +2795,7 @@ pub trait Core: Sized {
     fn store(&mut self) {
         let (n, t) = self.s_stack().pop2();
         let t = t as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t && t <= self.data_space().limit() - mem::size_of::<isize>()
         {
             unsafe { self.data_space().put_isize(n as isize, t as usize) };
         } else {
@@ -2846,9 +2846,11 @@ pub trait Core: Sized {
             let addr1 = addr1 as usize;
             let addr2 = addr2 as usize;
             if self.data_space().start() < addr1
-                && addr1 + u <= self.data_space().limit()
+                && addr1 <= self.data_space().limit()
+                && u <= self.data_space().limit() - addr1
                 && self.data_space().start() < addr2
-                && addr2 + u <= self.data_space().limit()
+                && addr2 <= self.data_space().limit()
+                && u <= self.data_space().limit() - addr2
             {
                 unsafe {
                     if addr1 < addr2 {
diff --git a/src/memory.rs b/src/memory.rs
index 61f3cc4..c403940 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -268,7 +268,7 @@ pub trait Memory {
     /// First aligned address greater than or equal to `pos`.
     fn aligned(pos: usize) -> usize {
         let align = mem::align_of::<isize>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not aligned, reserve enough space to align it.
@@ -280,7 +280,7 @@ pub trait Memory {
     /// First float-aligned address greater than or equal to `pos`.
     fn aligned_f64(pos: usize) -> usize {
         let align = mem::align_of::<f64>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not float-aligned, reserve enough space to align it.
@@ -292,7 +292,7 @@ pub trait Memory {
     /// First address aligned to 16-byte boundary greater than or equal to `pos`.
     fn aligned_16bytes(pos: usize) -> usize {
         let align = 16;
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the space pointer is not aligned to 16-byte boundary, reserve enough space to align it.
-- 
2.43.0


From 5f717d5629034858dbcb86380d8cde2e496d882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 02/20] fix: address and task-number arithmetic of words wraps
 instead of trapping

---
 src/core.rs   | 18 +++++++++---------
 src/float.rs  |  4 ++--
 src/memory.rs |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 0d5cbb1..9b0c0bd 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1079,9 +1079,9 @@ pub trait Core: Sized {
     }
 
     fn p_j(&mut self) {
-        let pos = self.r_stack().len() - 4;
+        let pos = self.r_stack().len().wrapping_sub(4);
         match self.r_stack().get(pos) {
-            Some(jt) => match self.r_stack().get(pos - 1) {
+            Some(jt) => match self.r_stack().get(pos.wrapping_sub(1)) {
                 Some(jn) => {
                     self.s_stack().push(jt.wrapping_add(jn));
                 }
@@ -1627,7 +1627,7 @@ pub trait Core: Sized {
     }
 
     fn activate(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             // Wake task `i`.
             self.set_awake(i, true);
@@ -1651,7 +1651,7 @@ pub trait Core: Sized {
     fn p_i(&mut self) {
         match self.r_stack().last() {
             Some(it) => {
-                let next = self.r_stack().len - 2;
+                let next = self.r_stack().len.wrapping_sub(2);
                 match self.r_stack().get(next) {
                     Some(inext) => {
                         self.s_stack().push(it.wrapping_add(inext));
@@ -2460,7 +2460,7 @@ pub trait Core: Sized {
     ///Add the size in address units of a character to `c-addr1`, giving `c-addr2`.
     fn char_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<u8>() as isize);
+        self.s_stack().push(v.wrapping_add(mem::size_of::<u8>() as isize));
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
@@ -2468,7 +2468,7 @@ pub trait Core: Sized {
     /// Add the size in address units of a cell to `a-addr1`, giving `a-addr2`.
     fn cell_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<isize>() as isize);
+        self.s_stack().push(v.wrapping_add(mem::size_of::<isize>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -2476,7 +2476,7 @@ pub trait Core: Sized {
     /// `n2` is the size in address units of `n1` cells.
     fn cells(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<isize>() as isize);
+        self.s_stack().push(v.wrapping_mul(mem::size_of::<isize>() as isize));
     }
 
     fn swap(&mut self) {
@@ -3227,7 +3227,7 @@ pub trait Core: Sized {
 
     /// Suspend task `i`. `suspend ( i -- )`
     fn suspend(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, false);
         } else {
@@ -3237,7 +3237,7 @@ pub trait Core: Sized {
 
     /// Resume task `i`. `resume ( i -- )`
     fn resume(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, true);
         } else {
diff --git a/src/float.rs b/src/float.rs
index e52b370..1455104 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -74,7 +74,7 @@ pub trait Float: Core {
     /// Add the size in address units of a float to `a-addr1`, giving `a-addr2`.
     fn float_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<f64>() as isize);
+        self.s_stack().push(v.wrapping_add(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -82,7 +82,7 @@ pub trait Float: Core {
     /// `n2` is the size in address units of `n1` floats.
     fn floats(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<f64>() as isize);
+        self.s_stack().push(v.wrapping_mul(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( addr -- a-addr )
diff --git a/src/memory.rs b/src/memory.rs
index c403940..536efd2 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -302,7 +302,7 @@ pub trait Memory {
     }
 
     fn allot(&mut self, v: isize) {
-        let here = (self.here() as isize + v) as usize;
+        let here = (self.here() as isize).wrapping_add(v) as usize;
         self.set_here(here);
     }
 
-- 
2.43.0


From 3ccadb5b449ad4e31c951c4a883b9def026a638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 03/20] fix: fconstant and marker must not allot data space
 when no name was defined

---
 src/core.rs  | 3 +++
 src/float.rs | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 9b0c0bd..34a71a5 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2360,6 +2360,9 @@ pub trait Core: Sized {
         let x = self.wordlist().last;
         self.wordlist_mut().temp_buckets = self.wordlist().buckets;
         self.define(Core::unmark, Core::compile_unmark);
+        if self.last_error().is_some() {
+            return;
+        }
         self.data_space().compile_usize(x);
         for i in 0..BUCKET_SIZE {
             let x = self.wordlist().temp_buckets[i];
diff --git a/src/float.rs b/src/float.rs
index 1455104..a656559 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -65,8 +65,10 @@ pub trait Float: Core {
     fn fconstant(&mut self) {
         let v = self.f_stack().pop();
         self.define(Float::p_fconst, Core::compile_fconst);
-        self.data_space().align_f64();
-        self.data_space().compile_f64(v);
+        if self.last_error().is_none() {
+            self.data_space().align_f64();
+            self.data_space().compile_f64(v);
+        }
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
-- 
2.43.0


From 77c698ba385088d6a352f1adc97b0a233733a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 04/20] fix: an invalid handler token must not make abort_with
 recurse forever

---
 src/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 34a71a5..bfca08b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3202,7 +3202,9 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-        self.execute_word(h);
+        if h < self.wordlist().len() {
+            self.execute_word(h);
+        }
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
-- 
2.43.0


From 261df240e8c47e452daf24d19bb5d66b404bd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 05/20] fix: _postpone and (xtime) reject invalid execution
 tokens

---
 src/core.rs  | 8 ++++++--
 src/tools.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index bfca08b..2f4791e 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1891,8 +1891,12 @@ pub trait Core: Sized {
         // --+------+---------+-----------+--
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
-        let compilation_semantics = self.wordlist()[xt].compilation_semantics;
-        compilation_semantics(self, xt);
+        if xt < self.wordlist().len() {
+            let compilation_semantics = self.wordlist()[xt].compilation_semantics;
+            compilation_semantics(self, xt);
+        } else {
+            self.abort_with(UNSUPPORTED_OPERATION);
+        }
     }
 
     fn compile_token(&mut self) {
diff --git a/src/tools.rs b/src/tools.rs
index 21ee4d2..fcb9fd5 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,5 +1,6 @@
 //! Tools to inspect the rtforth system
 
+use exception::INVALID_NUMERIC_ARGUMENT;
 use memory::Memory;
 use output::Output;
 use std::fmt::Write;
@@ -151,7 +152,11 @@ pub trait Tools: Output {
     /// ```
     fn set_execution_times(&mut self) {
         let (t0, xt) = self.s_stack().pop2();
-        let t = (self.system_time_ns() / 1_000) as usize - t0 as usize;
+        let t = ((self.system_time_ns() / 1_000) as usize).wrapping_sub(t0 as usize);
+        if xt as usize >= self.wordlist().len() {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
         let word = &mut self.wordlist_mut()[xt as usize];
         if word.min_execution_time != 0 {
             word.min_execution_time = word.min_execution_time.min(t);
-- 
2.43.0


From b348dae5c11a346bd9649be3bd8aa3968277618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 06/20] fix: .word consumes its argument even without an output
 buffer

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index fcb9fd5..f23f94a 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -61,8 +61,8 @@ pub trait Tools: Output {
     ///
     /// Print name of execution token xt.
     fn dot_word(&mut self) {
+        let xt = self.s_stack().pop() as usize;
         if let Some(mut buf) = self.output_buffer().take() {
-            let xt = self.s_stack().pop() as usize;
             if xt < self.wordlist().len() {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
-- 
2.43.0


From dd7e512fbb9f3ddc2bd64a5cb7538833b9729d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 07/20] fix: field width arithmetic of .r and f.r must not
 overflow

---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index feece3d..8a4dabd 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -156,7 +156,7 @@ pub trait Output: Core {
                 }
             }
             if valid_base {
-                for _ in 0..(n2 - self.hold_buffer().len() as isize) {
+                for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {
                     buf.push(' ');
                 }
                 buf.push_str(self.hold_buffer());
@@ -199,7 +199,7 @@ pub trait Output: Core {
                 16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),
                 _ => write!(self.hold_buffer(), "{:.17}", r).unwrap(),
             }
-            for _ in 0..(n1 - self.hold_buffer().len() as isize) {
+            for _ in 0..n1.saturating_sub(self.hold_buffer().len() as isize) {
                 buf.push(' ');
             }
             buf.push_str(self.hold_buffer());
-- 
2.43.0


From 7a51ee4da14c4c4c04a7f5d560b1b87580985ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 08/20] fix: type rejects strings outside the data space

---
 src/output.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 8a4dabd..281987b 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,7 +1,7 @@
 //! Words output to console
 
 use core::Core;
-use exception::{STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
 
@@ -54,6 +54,14 @@ pub trait Output: Core {
             self.abort_with(STACK_UNDERFLOW);
             return;
         }
+        let caddr = addr as usize;
+        if !(self.data_space().start() <= caddr
+            && caddr <= self.data_space().limit()
+            && len as usize <= self.data_space().limit() - caddr)
+        {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         match self.output_buffer().take() {
             Some(mut buffer) => {
                 {
-- 
2.43.0


From ab0b521353a27cfa6094d64e24695052046a554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 09/20] fix: open-source rejects a path outside the data space

---
 src/loader.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/loader.rs b/src/loader.rs
index e23754e..d2d74d0 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -1,7 +1,9 @@
 //! Source input
 
 use core::Core;
-use exception::{Exception, FILE_IO_EXCEPTION, INVALID_NUMERIC_ARGUMENT};
+use exception::{
+    Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
+};
 use memory::Memory;
 use output::Output;
 use std::fs::File;
@@ -38,6 +40,14 @@ pub trait HasLoader: Core + Output {
     /// or opened read-write.
     fn open_source(&mut self) {
         let (caddr, u, id) = self.s_stack().pop3();
+        let start = caddr as usize;
+        if !(self.data_space().start() <= start
+            && start <= self.data_space().limit()
+            && u as usize <= self.data_space().limit() - start)
+        {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         if id > 0 && id - 1 < self.files().len() as isize {
             match self.files_mut()[id as usize - 1].take() {
                 Some(file) => {
-- 
2.43.0


From 0c8cc560b82bc4cd3bb4435f933ffc53cb2aa05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 10/20] fix: buffer bounds checks of file words must not wrap
 around

---
 src/file_access.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index a36810f..2debccf 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -177,7 +177,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().start() <= caddr && caddr <= self.data_space().limit() && u <= self.data_space().limit() - caddr {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -220,7 +220,7 @@ pub trait FileAccess: Core {
             self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
-                if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+                if self.data_space().start() <= caddr && caddr <= self.data_space().limit() && u <= self.data_space().limit() - caddr {
                     let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                     match fs::remove_file(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
@@ -269,7 +269,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().start() <= caddr && caddr <= self.data_space().limit() && u <= self.data_space().limit() - caddr {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -341,7 +341,7 @@ pub trait FileAccess: Core {
         } else {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
-                if self.data_space().start() <= caddr && caddr + u1 <= self.data_space().limit() {
+                if self.data_space().start() <= caddr && caddr <= self.data_space().limit() && u1 <= self.data_space().limit() - caddr {
                     let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                     file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
                 } else {
@@ -384,7 +384,8 @@ pub trait FileAccess: Core {
                 Some(mut f) => {
                     let result = {
                         if self.data_space().start() <= caddr
-                            && caddr + u <= self.data_space().limit()
+                            && caddr <= self.data_space().limit()
+                            && u <= self.data_space().limit() - caddr
                         {
                             let buf = unsafe {
                                 self.data_space().buffer_from_raw_parts(caddr as _, u as _)
-- 
2.43.0


From 69e8dcb993c0a0a66f2548ba4f357bea23d6a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 11/20] fix: delete-file leaves one result for an over-long
 path

---
 src/file_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 2debccf..1aa57e7 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -217,7 +217,7 @@ pub trait FileAccess: Core {
         let caddr = caddr as usize;
         let u = u as usize;
         if u > PATH_NAME_MAX_LEN {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
                 if self.data_space().start() <= caddr && caddr <= self.data_space().limit() && u <= self.data_space().limit() - caddr {
-- 
2.43.0


From 5c649942e2d85cb06889c329bffe04e8018ccf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 12/20] fix: read-file and write-file report the documented
 count and cause on bad arguments

---
 src/file_access.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 1aa57e7..9101913 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -332,7 +332,7 @@ pub trait FileAccess: Core {
         let u1 = u1 as usize;
         let fileid = fileid as usize;
         if fileid == 0 {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push2(0, INVALID_NUMERIC_ARGUMENT.into());
             return;
         }
         let fileid = fileid - 1;
@@ -397,7 +397,7 @@ pub trait FileAccess: Core {
                     };
                     match result {
                         Ok(_) => self.s_stack().push(0),
-                        Err(_) => self.s_stack().push(FILE_IO_EXCEPTION.into()),
+                        Err(e) => self.s_stack().push(e.into()),
                     }
                     self.files_mut()[fileid] = Some(f);
                 }
-- 
2.43.0


From c1e52dd1eec8c77e9deaa51cd6c08d0636aeee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 13/20] fix: !token reports an invalid address instead of
 panicking

---
 src/core.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 2f4791e..0d3c23a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2015,7 +2015,14 @@ pub trait Core: Sized {
     /// Store token in counted string at `c-addr`.`
     fn store_token(&mut self) {
         let c_addr = self.s_stack().pop() as usize;
-        if self.data_space().start() <= c_addr {
+        let len = match self.last_token().as_ref() {
+            Some(t) => t.len().min(255) + mem::size_of::<usize>(),
+            None => mem::size_of::<u8>(),
+        };
+        if self.data_space().start() <= c_addr
+            && c_addr <= self.data_space().limit()
+            && len <= self.data_space().limit() - c_addr
+        {
             match self.last_token().take() {
                 Some(mut t) => {
                     self.data_space().put_cstr(&t, c_addr);
-- 
2.43.0


From 045b95c43ba188adb711ecc87e6ac0608f358b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 14/20] fix: _skip advances by the size of the skipped
 characters

---
 src/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 0d3c23a..ca24969 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1813,9 +1813,9 @@ pub trait Core: Sized {
             let mut char_indices = source.char_indices();
             loop {
                 match char_indices.next() {
-                    Some((idx, ch)) => {
+                    Some((_idx, ch)) => {
                         if ch as isize == v {
-                            cnt += 1;
+                            cnt += ch.len_utf8();
                         } else {
                             break;
                         }
-- 
2.43.0


From 6c39ea964929ce935d3716b8daceec7ca1812073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 15/20] fix: s" at the end of the input must not run past the
 input buffer

---
 src/output.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 281987b..88a6d45 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -90,11 +90,10 @@ pub trait Output: Core {
     fn s_quote(&mut self) {
         let input_buffer = self.input_buffer().take().unwrap();
         {
-            let source = &input_buffer[self.state().source_index + 1..input_buffer.len()];
+            let start = (self.state().source_index + 1).min(input_buffer.len());
+            let source = &input_buffer[start..];
             let s = match source.find('"') {
-                Some(n) => {
-                    &input_buffer[self.state().source_index + 1..self.state().source_index + 1 + n]
-                }
+                Some(n) => &source[..n],
                 None => source,
             };
             let cnt = s.len();
@@ -104,7 +103,7 @@ pub trait Output: Core {
             self.data_space().compile_str(s);
             self.data_space().align();
             // ignore the space following S"
-            self.state().source_index = self.state().source_index + 1 + cnt as usize + 1;
+            self.state().source_index = (start + cnt + 1).min(input_buffer.len());
         }
         self.set_input_buffer(input_buffer);
     }
-- 
2.43.0


From c0db0984e5b672ebe297f5a652d514c25c17c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 16/20] fix: parsing words tolerate a missing input buffer or a
 stray source index

---
 src/core.rs   | 23 +++++++++++++++--------
 src/output.rs | 13 ++++++++-----
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index ca24969..503af48 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1698,8 +1698,7 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         if let Some(input_buffer) = self.input_buffer().take() {
-            if self.state().source_index < input_buffer.len() {
-                let source = &input_buffer[self.state().source_index..];
+            if let Some(source) = input_buffer.get(self.state().source_index..) {
                 let mut cnt = source.len();
                 let mut char_indices = source.char_indices();
                 loop {
@@ -1767,12 +1766,14 @@ pub trait Core: Sized {
     ///
     /// Parse ccc delimited by the delimiter char.
     fn parse(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
+        let input_buffer = self.input_buffer().take();
         let v = self.s_stack().pop();
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
+        if let Some(source) = input_buffer
+            .as_ref()
+            .and_then(|b| b.get(self.state().source_index..))
         {
-            let source = &input_buffer[self.state().source_index..];
             let mut cnt = source.len();
             let mut char_indices = source.char_indices();
             loop {
@@ -1798,17 +1799,21 @@ pub trait Core: Sized {
             self.state().source_index = self.state().source_index + cnt;
         }
         self.set_last_token(last_token);
-        self.set_input_buffer(input_buffer);
+        if let Some(input_buffer) = input_buffer {
+            self.set_input_buffer(input_buffer);
+        }
     }
 
     /// Run-time: ( char "ccc" -- )
     ///
     /// Skip all of the delimiter char.
     fn _skip(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
+        let input_buffer = self.input_buffer().take();
         let v = self.s_stack().pop();
+        if let Some(source) = input_buffer
+            .as_ref()
+            .and_then(|b| b.get(self.state().source_index..))
         {
-            let source = &input_buffer[self.state().source_index..];
             let mut cnt = 0;
             let mut char_indices = source.char_indices();
             loop {
@@ -1827,7 +1832,9 @@ pub trait Core: Sized {
             }
             self.state().source_index = self.state().source_index + cnt;
         }
-        self.set_input_buffer(input_buffer);
+        if let Some(input_buffer) = input_buffer {
+            self.set_input_buffer(input_buffer);
+        }
     }
 
     fn imm_paren(&mut self) {
diff --git a/src/output.rs b/src/output.rs
index 88a6d45..6b0607d 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -88,10 +88,11 @@ pub trait Output: Core {
     /// Return c-addr and u describing a string consisting of the characters ccc. A program
     /// shall not alter the returned string.
     fn s_quote(&mut self) {
-        let input_buffer = self.input_buffer().take().unwrap();
+        let input_buffer = self.input_buffer().take();
         {
-            let start = (self.state().source_index + 1).min(input_buffer.len());
-            let source = &input_buffer[start..];
+            let text = input_buffer.as_ref().map_or("", |b| b.as_str());
+            let start = self.state().source_index.saturating_add(1).min(text.len());
+            let source = text.get(start..).unwrap_or("");
             let s = match source.find('"') {
                 Some(n) => &source[..n],
                 None => source,
@@ -103,9 +104,11 @@ pub trait Output: Core {
             self.data_space().compile_str(s);
             self.data_space().align();
             // ignore the space following S"
-            self.state().source_index = (start + cnt + 1).min(input_buffer.len());
+            self.state().source_index = (start + cnt + 1).min(text.len());
+        }
+        if let Some(input_buffer) = input_buffer {
+            self.set_input_buffer(input_buffer);
         }
-        self.set_input_buffer(input_buffer);
     }
 
     /// Compilation: ( "ccc<quote>" -- )
-- 
2.43.0


From 18733672f3053174bc600b5862e03271a73dec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 17/20] fix: .backtrace tolerates an invalid aborted word
 pointer

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index f23f94a..e9af3f4 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -95,7 +95,7 @@ pub trait Tools: Output {
             }
 
             let xt = self.state().aborted_word_pointer;
-            if xt != 0 {
+            if xt != 0 && xt < self.wordlist().len() {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
                 write!(buf, "{} ", name).unwrap();
-- 
2.43.0


From 3d7e2efc012878285b5c06befcecaa87d2580a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 18/20] fix: large exponents of floating point literals must
 not wrap around

---
 src/core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 503af48..5e2c804 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2250,9 +2250,13 @@ pub trait Core: Sized {
             if self.references().idx_flit == 0 {
                 self.set_error(Some(UNSUPPORTED_OPERATION));
             } else {
+                let exponent = exponent_sign
+                    .wrapping_mul(exponent_part)
+                    .max(i32::min_value() as isize)
+                    .min(i32::max_value() as isize);
                 let value = (significand_sign as f64)
                     * (integer_part as f64 + fraction_part)
-                    * ((10.0f64).powi((exponent_sign.wrapping_mul(exponent_part)) as i32) as f64);
+                    * (10.0f64).powi(exponent as i32);
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0


From 1532ba5121a731fe35420f5b8f357a07b551639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 19/20] fix: a base prefix or sign without digits is not a
 number

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cd15872..22c444e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -75,6 +75,10 @@ pub fn uint_in_base(input: &[u8], base: isize) -> IResult<isize> {
         value = value.wrapping_mul(base).wrapping_add(d);
         len = len + 1;
     }
+    if len == 0 {
+        // A number needs at least one digit.
+        return IResult::Err(RESULT_OUT_OF_RANGE);
+    }
     bytes = &bytes[len..];
     IResult::Done(bytes, value)
 }
-- 
2.43.0


From 11867d631da28d6f9cf8864e257c3ca08e4e0575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:35 +0000
Subject: [PATCH 20/20] fix: endcase compiles nothing when it does not close a
 case

---
 src/core.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 5e2c804..54c8d55 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1252,31 +1252,32 @@ pub trait Core: Sized {
     }
 
     fn imm_endcase(&mut self) {
-        let idx = self.references().idx_drop;
-        self.compile_word(idx);
+        // Nothing is compiled or patched unless the chain of `endof`s leads back to a `case`.
+        let len = self.c_stack().len;
         loop {
-            let endof_part = match self.c_stack().pop() {
-                Control::Case => {
-                    break;
-                }
-                Control::Endof(endof_part) => endof_part,
+            let part = self.c_stack().pop();
+            if self.c_stack().underflow() {
+                self.abort_with(CONTROL_STRUCTURE_MISMATCH);
+                return;
+            }
+            match part {
+                Control::Case => break,
+                Control::Endof(_) => {}
                 _ => {
                     self.abort_with(CONTROL_STRUCTURE_MISMATCH);
                     return;
                 }
-            };
-            if self.c_stack().underflow() {
-                self.abort_with(CONTROL_STRUCTURE_MISMATCH);
-            } else {
-                let here = self.data_space().here();
-                unsafe {
-                    self.data_space()
-                        .put_isize(here as isize, endof_part - mem::size_of::<isize>());
-                }
             }
         }
-        if self.c_stack().underflow() {
-            self.abort_with(CONTROL_STRUCTURE_MISMATCH);
+        self.c_stack().len = len;
+        let idx = self.references().idx_drop;
+        self.compile_word(idx);
+        let here = self.data_space().here();
+        while let Control::Endof(endof_part) = self.c_stack().pop() {
+            unsafe {
+                self.data_space()
+                    .put_isize(here as isize, endof_part - mem::size_of::<isize>());
+            }
         }
     }
 
-- 
2.43.0

