From 7c3a91e3c8ffff8dd5c4d618e0fe46923d7b9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 01/52] fix: IndexMut<Range> for Slice honours the start of the
 range

---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 215e17f..a108b17 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -240,7 +240,7 @@ impl core::ops::IndexMut<Range<usize>> for Slice {
     /// 获取指定下标范围的数据
     fn index_mut(&mut self, index: Range<usize>) -> &mut Self::Output {
         assert!(index.end <= self.size());
-        &mut (**self)[..index.end]
+        &mut (**self)[index.start..index.end]
     }
 }
 
-- 
2.43.0


From 46e57fe8dcee900132e2fb867a9a1b0ce44359ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 02/52] fix: Slice::starts_with answers false for a longer
 prefix instead of panicking

---
 src/util/slice.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index a108b17..433f247 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -79,7 +79,6 @@ impl Slice {
 
     /// 判断本 Slice 是否以 other 为开始
     pub fn starts_with(&self, other: &Self) -> bool {
-        assert!(other.size() <= self.size());
         if other.size() == 0 {
             return true;
         }
-- 
2.43.0


From 590bafcfac917138d303251567eccb130562e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 03/52] fix: Slice::borrow_data borrows from the slice instead
 of an arbitrary lifetime

---
 src/util/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 433f247..7089acb 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -109,9 +109,9 @@ impl Slice {
     }
 }
 
-impl<'a> Slice {
+impl Slice {
     /// 借取 Slice 中的数据, 调用方只拥有读权限
-    pub fn borrow_data(&self) -> Cow<'a, String> {
+    pub fn borrow_data(&self) -> Cow<'_, String> {
         unsafe {
             // String & Vec<u8> has the same layout
             let s: &String = mem::transmute(&self.data);
-- 
2.43.0


From 88a35f3be1ad11b6899a60ddff5cd028cd13d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 04/52] fix: Slice::borrow_data and Display never expose bytes
 that are not UTF-8 as str

---
 src/util/slice.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 7089acb..87162f3 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -3,7 +3,6 @@ use std::mem;
 use std::borrow::Cow;
 use std::cmp::Ordering;
 use std::fmt::{Display, Formatter};
-use std::mem::ManuallyDrop;
 use std::ops::{Deref, DerefMut, RangeTo};
 
 #[derive(Debug)]
@@ -112,6 +111,9 @@ impl Slice {
 impl Slice {
     /// 借取 Slice 中的数据, 调用方只拥有读权限
     pub fn borrow_data(&self) -> Cow<'_, String> {
+        if std::str::from_utf8(&self.data).is_err() {
+            return Cow::Owned(String::from_utf8_lossy(&self.data).into_owned());
+        }
         unsafe {
             // String & Vec<u8> has the same layout
             let s: &String = mem::transmute(&self.data);
@@ -277,14 +279,6 @@ impl DerefMut for Slice {
 
 impl Display for Slice {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        unsafe {
-            let string = ManuallyDrop::new(
-                String::from_raw_parts(
-                    self.as_ptr() as *mut u8,
-                    self.data.len(),
-                    self.data.capacity())
-            );
-            f.write_str(string.as_str())
-        }
+        f.write_str(&String::from_utf8_lossy(&self.data))
     }
 }
-- 
2.43.0


From 6e535af871c174c12abc116c0a053ea0096dd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 05/52] fix: UnsafeSlice::new_with_arena points at the copied
 bytes, not past them

---
 src/util/unsafe_slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c48d2bb..b280f0f 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,6 +1,5 @@
 use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
-use std::io::Write;
 use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
@@ -27,8 +26,8 @@ impl UnsafeSlice {
     pub fn new_with_arena<B: AsRef<[u8]>>(data: B, arena: ArenaRef) -> Result<Self> {
         let mut lock = arena.lock()?;
         let src = data.as_ref();
-        let mut buf = lock.allocate(src.len());
-        buf.write(src)?;
+        let buf = lock.allocate(src.len());
+        buf.copy_from_slice(src);
         Ok(Self {
             ptr: buf.as_mut_ptr(),
             len: buf.len(),
-- 
2.43.0


From 6586a7af1bbab3e041aa04f5e0d371ad44bd1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 06/52] fix: UnsafeSlice::sub_slice accepts ranges up to the
 end and cannot wrap

---
 src/util/unsafe_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index b280f0f..2e13e72 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -53,7 +53,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len < self.len, "sub_slice out of range");
+        assert!(start <= self.len && len <= self.len - start, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
-- 
2.43.0


From 43cbe10ec1470d07132541200ca0b251768c1dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 07/52] fix: UnsafeSlice::to_slice copies the bytes into
 properly allocated memory

---
 src/util/unsafe_slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 2e13e72..0556e5e 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,4 +1,3 @@
-use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
 use std::mem::ManuallyDrop;
 
@@ -63,10 +62,7 @@ impl UnsafeSlice {
     /// 生成 Slice 串，由于 Slice 是内存安全的，所以实现上会有内存拷贝。
     /// 高性能场景优先考虑 UnsafeSlice
     pub fn to_slice(&self) -> Slice {
-        unsafe {
-            let raw_ptr = alloc(Layout::from_size_align_unchecked(self.len, 8));
-            Slice::from_raw_parts(raw_ptr, self.len)
-        }
+        Slice::from_buf(self.as_ref())
     }
 }
 
-- 
2.43.0


From 5af3b77712ffea2b1883daf28eaac76c74c5be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 08/52] fix: UnsafeSlice never builds a str from bytes that are
 not UTF-8

---
 src/util/unsafe_slice.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 0556e5e..dd2aa76 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,5 +1,4 @@
 use std::fmt::{Display, Formatter};
-use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
 use crate::util::Result;
@@ -42,9 +41,7 @@ impl UnsafeSlice {
 
     #[inline]
     pub fn as_str(&self) -> &str {
-        unsafe {
-            core::str::from_utf8_unchecked(self.as_ref())
-        }
+        core::str::from_utf8(self.as_ref()).unwrap()
     }
 }
 
@@ -78,12 +75,7 @@ impl AsRef<[u8]> for UnsafeSlice {
 
 impl Display for UnsafeSlice {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        unsafe {
-            let string = ManuallyDrop::new(
-                String::from_raw_parts(self.ptr, self.len, self.len)
-            );
-            f.write_str(string.as_str())
-        }
+        f.write_str(&String::from_utf8_lossy(self.as_ref()))
     }
 }
 
-- 
2.43.0


From 19832022ec1780a8d865f0031d642b5645e8952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 09/52] fix: Slice::copy_with_arena no longer lets a Vec free
 memory of the arena

---
 src/util/arena.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index d239b48..9ae267e 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -116,12 +116,11 @@ impl Drop for Arena {
 
 impl ArenaAllocLike for Slice {
     fn copy_with_arena(&self, arena: ArenaRef) -> Self {
-        unsafe {
-            let mut lock_guard = arena.lock().unwrap();
-            let dst = lock_guard.allocate(self.len());
-            let src = &**self;
-            dst.copy_from_slice(src);
-            Slice::from_raw_parts(dst.as_mut_ptr(), self.len())
-        }
+        let mut lock_guard = arena.lock().unwrap();
+        let dst = lock_guard.allocate(self.len());
+        let src = &**self;
+        dst.copy_from_slice(src);
+        // a Slice frees its buffer itself, so it must not adopt memory of the arena
+        Slice::from_buf(dst)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 68147104c29d06f8d9b9599bf2e171ab78153f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 10/52] fix: Arena::allocate(0) on a fresh arena does not panic

---
 src/util/arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index 9ae267e..dee11e0 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -56,7 +56,7 @@ impl Arena {
     }
 
     pub fn allocate_align(&mut self, bytes: usize, align: usize) -> &mut [u8] {
-        if bytes <= self.alloc_bytes_remaining {
+        if self.alloc_ptr.is_some() && bytes <= self.alloc_bytes_remaining {
             self.alloc_bytes_remaining -= bytes;
             let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
             unsafe {
-- 
2.43.0


From 1dff7e55f425343b13cc7b985b2d74f0a0eae3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 11/52] fix: Arena checks layouts and allocation failure and
 hands out initialised bytes

---
 src/util/arena.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index dee11e0..f84dec8 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -1,5 +1,5 @@
 use std::slice;
-use std::alloc::{alloc, dealloc, Layout};
+use std::alloc::{alloc_zeroed, dealloc, handle_alloc_error, Layout};
 use std::ptr::NonNull;
 use std::sync::{Arc, Mutex};
 
@@ -76,17 +76,17 @@ impl Arena {
     fn allocate_fallback(&mut self, bytes: usize, align: usize) -> &mut [u8] {
         if bytes > ARENA_BLOCK_SIZE / 4 {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(bytes, align);
+                let layout = Layout::from_size_align(bytes, align).expect("arena request too large");
                 return self.allocate_new_block(layout);
             }
         }
         unsafe {
-            self.alloc_bytes_remaining = ARENA_BLOCK_SIZE - bytes;
-            let layout = Layout::from_size_align_unchecked(ARENA_BLOCK_SIZE, align);
+            let layout = Layout::from_size_align(ARENA_BLOCK_SIZE, align).expect("arena alignment");
             let new_block = self.allocate_new_block(layout);
             let ptr = new_block.as_ptr() as *mut u8;
             let result = slice::from_raw_parts_mut(ptr, bytes);
             self.alloc_ptr = Some(NonNull::new_unchecked(ptr.offset(bytes as isize)));
+            self.alloc_bytes_remaining = ARENA_BLOCK_SIZE - bytes;
             result
         }
     }
@@ -95,7 +95,10 @@ impl Arena {
     /// 分配一块新的内存
     fn allocate_new_block(&mut self, layout: Layout) -> &mut [u8] {
         unsafe {
-            let data = alloc(layout);
+            let data = alloc_zeroed(layout);
+            if data.is_null() {
+                handle_alloc_error(layout);
+            }
             self.memory_usage += layout.size();
             self.blocks.push((NonNull::new_unchecked(data), layout));
             slice::from_raw_parts_mut(data, layout.size())
-- 
2.43.0


From 1730eee2aae2873f7af232473d35fb048029e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 12/52] fix: ShardLRUCache is Send and Sync only for values
 that are

---
 src/util/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e15d7de..0c6b236 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -618,10 +618,10 @@ fn pre_shard(capacity: usize) -> usize {
 }
 
 /// 所有权可以多线程传递
-unsafe impl<T> Send for ShardLRUCache<T> {}
+unsafe impl<T: Send + Sync> Send for ShardLRUCache<T> {}
 
 /// 不可变借用可以多线程共享, 内部shard具有可变性并且加锁, 可以安全的在多线程环境下使用
-unsafe impl<T> Sync for ShardLRUCache<T> {}
+unsafe impl<T: Send + Sync> Sync for ShardLRUCache<T> {}
 
 impl<T> ShardLRUCache<T> {
     /// 私有化构造器
-- 
2.43.0


From 5b2de690da34491e6f5855b065b5deb302dba49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 13/52] fix: fixed-width integers are read and written at any
 address

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c4320b8..b6d9f47 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -179,7 +179,7 @@ macro_rules! encode_fixed {
                 // 移动指针
                 let end = mut_ptr.add(offset);
                 // 写入数据
-                ptr::write(end as *mut $type, swap_bytes!(value));
+                ptr::write_unaligned(end as *mut $type, swap_bytes!(value));
             }
         }
     };
@@ -317,7 +317,7 @@ macro_rules! decode_fixed {
         unsafe fn $name(data: &EncodeData, offset: usize) -> $type {
             // offset + 读取字节 >= data.len() 时会溢出
             let ptr = get_ptr!(data);
-            swap_bytes!(unsafe {ptr::read(ptr.add(offset) as *mut $type)})
+            swap_bytes!(unsafe {ptr::read_unaligned(ptr.add(offset) as *mut $type)})
         }
     }
 }
-- 
2.43.0


From 9abd156e6dc49c688f31812255609cf40a755286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 14/52] fix: length checks of the encoder and decoder cannot
 wrap around

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index b6d9f47..5ef8c2b 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -119,7 +119,7 @@ macro_rules! get_ptr {
 macro_rules! check_length {
     ($offset: expr, $write_len: expr, $data_len: expr, write) => {
         // 偏移量 + 写入长度 >= 容器的长度时, 会抛出异常
-        if $offset + $write_len > $data_len {
+        if $write_len > $data_len || $offset > $data_len - $write_len {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + write_len must < data_len"),
                 Slice::from(format!("offset = {}, write_len = {}, data_len = {}", $offset, $write_len, $data_len))));
@@ -136,7 +136,7 @@ macro_rules! check_length {
     };
     ($offset: expr, $read_len: expr, $limit: expr, read) => {
         // 偏移量 + 读取长度 >= 容器的长度时, 会抛出异常
-        if $offset + $read_len > $limit {
+        if $read_len > $limit || $offset > $limit - $read_len {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + read_len must < limit"),
                 Slice::from(format!("offset = {}, read_len = {}, limit = {}", $offset, $read_len, $limit))
-- 
2.43.0


From 5fd713fe976eaa36f47302a063039900d72cd1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 15/52] fix: Decoder buffers are allocated with the layout
 their Vec frees them with

---
 src/util/coding.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 5ef8c2b..2d2741d 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1,5 +1,4 @@
-use std::{intrinsics, ptr};
-use std::alloc::{alloc, Layout};
+use std::{ptr, slice};
 use std::ops::Deref;
 
 use crate::util::coding::EncodeData::{Buffer, Slices, Vector};
@@ -429,12 +428,8 @@ unsafe fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
 /// ```
 unsafe fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> Slice {
     let ptr: *const u8 = get_ptr!(data).add(offset);
-    // 分配一块内存长度为buf的长度
-    let dst: *mut u8 = alloc(Layout::from_size_align_unchecked(len, 4));
-    // 将数据拷贝到这块内存上
-    intrinsics::copy_nonoverlapping(ptr, dst, len);
-    // 使用slice包装内存
-    Slice::from_raw_parts(dst, len)
+    // 将数据拷贝到新的slice上
+    Slice::from_buf(slice::from_raw_parts(ptr, len))
 }
 
 /// 编码的数据 只读的
-- 
2.43.0


From 04303e09452b3e926286762a3e1d870a426730f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 16/52] fix: Decoder::get_buf moves the cursor past the bytes
 it returns

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 2d2741d..36f7a79 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1118,10 +1118,10 @@ impl<'a> Decoder<'a> {
     ///  // [1, 2, 3]
     ///  let buf = decoder.get_buf(3)?;
     /// ```
-    pub fn get_buf(&self, len: usize) -> Result<Slice> {
+    pub fn get_buf(&mut self, len: usize) -> Result<Slice> {
         check_length!(self.offset, len, self.limit, read);
         unsafe {
-            Ok(uncheck_read_buf(&self.data, self.offset, len))
+            Ok(self.uncheck_get_buf(len))
         }
     }
 
-- 
2.43.0


From 4815fc253a2a56433f9ea12bf9f104197995f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 17/52] fix: truncated or overlong varints are reported and
 leave the cursor in place

---
 src/util/coding.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 36f7a79..fd393db 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -952,6 +952,14 @@ macro_rules! get_varint {
             check_length!(self.offset, self.limit);
             // 调用解码方法
             let res = unsafe { $var_name(&self.data, self.offset, self.limit) };
+            let data = &self.data;
+            // 最后一个byte >= 128, 说明数据被截断或者过长
+            if unsafe { ptr::read(get_ptr!(data).add(res.1 - 1)) } & 128 != 0 {
+                return Err(LevelError::invalid_argument(
+                    Slice::from("unterminated varint"),
+                    Slice::from(format!("offset = {}, limit = {}", self.offset, self.limit))
+                ));
+            }
             self.offset = res.1;
             Ok(res.0)
         }
-- 
2.43.0


From 751584cd53a1ea4c9a6f7dabb1717b1142ff7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 18/52] fix: length-prefixed slices leave cursor and buffer
 alone when they fail

---
 src/util/coding.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index fd393db..4997b3c 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -801,6 +801,9 @@ impl<'a> Encoder<'a> {
     ///  encoder.put_length_prefixed_slice(&slice)?;
     /// ```
     pub fn put_length_prefixed_slice(&mut self, slice: &Slice) -> Result<()> {
+        // 先检查总长度, 保证失败时不会写入部分数据
+        let total = varint_length(slice.size() as u64) + slice.size();
+        if let MutVector(_) = self.data {} else { check_length!(self.offset, total, self.len(), write) };
         self.put_varint32(slice.size() as u32)?;
         self.put_buf(slice)?;
         Ok(())
@@ -1075,10 +1078,13 @@ impl<'a> Decoder<'a> {
     ///  let slice = decoder.get_length_prefixed_slice()?;
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
-        check_length!(self.offset, self.limit);
-        let size = unsafe { self.uncheck_get_varint32() } as usize;
-        check_length!(self.offset, size, self.limit, read);
-        unsafe { Ok(self.uncheck_get_buf(size)) }
+        let start = self.offset;
+        let size = self.get_varint32()? as usize;
+        let result = self.get_buf(size);
+        if result.is_err() {
+            self.offset = start;
+        }
+        result
     }
 
     /// 获取buf 不检查长度
-- 
2.43.0


From c164d040bba0f5324e072ff77156f502c6f2c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 19/52] fix: an oversized sequence number is never packed
 silently

---
 src/db/db_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4b4a7c7..fe03d45 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -320,7 +320,7 @@ const K_MAX_SEQUENCE_NUMBER: usize = (1 << 56) - 1;
 
 #[inline]
 pub fn pack_sequence_and_type(seq_no: usize, v_type: ValueType) -> u64 {
-    debug_assert!(seq_no <= K_MAX_SEQUENCE_NUMBER);
+    assert!(seq_no <= K_MAX_SEQUENCE_NUMBER);
     debug_assert!(v_type.get_value() <= 1);
     ((seq_no << 8) | v_type.get_value()) as u64
 }
-- 
2.43.0


From 73f7a88317025cf3264e2f06e96cb05dbca42f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 20/52] fix: LookupKey::new writes a well-formed key inside the
 memory it reserves

---
 src/db/db_format.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index fe03d45..921defc 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -256,15 +256,16 @@ impl LookupKey {
     /// the specified sequence number.
     pub fn new(user_key: Slice, sequence: usize) -> Self {
         let user_key_size = user_key.size();
-        let need = user_key_size + 13; // A conservative estimate
-        let mut data = Vec::with_capacity(need);
+        let internal_key_size = user_key_size + 8;
+        assert!(internal_key_size <= u32::MAX as usize, "user key too long");
+        let klength = varint_length(internal_key_size as u64);
+        let mut data = vec![0; klength + internal_key_size];
         let buf = data.as_mut_slice();
         let mut encoder = Encoder::with_buf(buf);
-        // write key size
-        let klength = varint_length((user_key_size + 8) as u64);
         // 需要保证写入的数据不会超过buf.len(), 否则会溢出
         unsafe {
-            encoder.uncheck_put_varint32(klength as u32);
+            // write key size
+            encoder.uncheck_put_varint32(internal_key_size as u32);
             // write key slice
             encoder.uncheck_put_buf(user_key.as_ref());
             // write sequence number and value type
-- 
2.43.0


From c97dba4e14966cfc61b162864a4cc9c73b6b2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 21/52] fix: MemTable::add does not deadlock on the arena and
 writes LevelDB's entry layout

---
 src/db/mem_table.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index a003400..1f8d50d 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -1,6 +1,6 @@
 use std::io::Write;
 use std::sync::{Arc, Mutex};
-use crate::db::db_format::{LookupKey, ValueType};
+use crate::db::db_format::{pack_sequence_and_type, LookupKey, ValueType};
 use crate::db::skip_list::SkipList;
 use crate::traits::comparator_trait::Comparator;
 use crate::traits::DataIterator;
@@ -8,6 +8,7 @@ use crate::util::arena::ArenaRef;
 use crate::util::slice::Slice;
 use crate::util::{Arena, Result};
 use crate::util::coding::{Encoder, varint_length};
+use crate::util::status::LevelError;
 use crate::util::unsafe_slice::UnsafeSlice;
 
 /// 内存表
@@ -70,13 +71,15 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
-        let encoded_len = varint_length(key_size as u64)
+        if internal_key_size > u32::MAX as usize || value_size > u32::MAX as usize {
+            return Err(LevelError::invalid_argument(Slice::from("key or value too long"), Slice::default()));
+        }
+        let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
-        let mut lock = self.arena.lock()?;
-        let buf = lock.allocate(encoded_len);
-        let mut encoder = Encoder::with_buf(buf);
+        let mut buf = vec![0; encoded_len];
+        let mut encoder = Encoder::with_buf(buf.as_mut_slice());
         // 需要保证写入的数据不会超过buf.len(), 否则溢出
         unsafe {
             // write key size
@@ -84,7 +87,9 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             // write key slice
             encoder.uncheck_put_buf(key_buf);
             // write seq_no and type
-            encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);
+            encoder.uncheck_put_fixed64(pack_sequence_and_type(seq_no, v_type));
+            // write value size
+            encoder.uncheck_put_varint32(value_size as u32);
             // write value slice
             encoder.uncheck_put_buf(value_buf);
         }
-- 
2.43.0


From 1bce645593cb586f16f4f03819e67da905140606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 22/52] fix: skip-list links live in byte-aligned arena memory

---
 src/db/skip_list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1bc28f2..de7dc5b 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -342,13 +342,13 @@ impl Node {
     #[must_use]
     unsafe fn get_node(&self, level: usize) -> RawNode {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).read()
+        self.next_elems.offset(level as isize).read_unaligned()
     }
 
     #[inline]
     unsafe fn set_node(&mut self, level: usize, node: RawNode) {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).write(node);
+        self.next_elems.offset(level as isize).write_unaligned(node);
     }
 
     /// 找到最后一个数据元素
-- 
2.43.0


From 0fe53a7f95017bc2575ae6192985423487cdbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 23/52] fix: the head of an empty skip list is followed by the
 tail

---
 src/db/skip_list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index de7dc5b..c3f0bd8 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -52,11 +52,17 @@ pub struct Iter<Cmp: Comparator> {
 
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
+        let head = Node::create_head(arena.clone());
+        let tail = Node::create_tail();
+        // an empty list: the head is followed by the tail at every level
+        for l in 0..MAX_LEVEL {
+            unsafe { (&mut *head).set_node(l, tail); }
+        }
         Self {
             height: 0,
             num: 0,
-            head: Node::create_head(arena.clone()),
-            tail: Node::create_tail(),
+            head,
+            tail,
             cmp: comparator,
             arena,
         }
-- 
2.43.0


From 5f96601699d84088252f9365173f0244ebfbee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 24/52] fix: a skip-list iterator is valid exactly when it
 stands on an element

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index c3f0bd8..3430be6 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -445,7 +445,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn valid(&self) -> bool {
         unsafe {
-            (&*self.current).is_head_or_tail()
+            !(&*self.current).is_head_or_tail()
         }
     }
 
-- 
2.43.0


From 0fd50535e46a9611650987aca3c15331b0f03f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 25/52] fix: seek_to_last finds the last element of the whole
 skip list

---
 src/db/skip_list.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 3430be6..1aa0a07 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -362,21 +362,22 @@ impl Node {
         if self.is_tail() {
             return None;
         }
+        // every level is descended to its last node before the next lower one is
+        // tried: the last node of a level need not be the last node of the list
         let mut pre = self;
-        let mut cur = &*self.next_top_node();
-        loop {
-            if cur.is_tail() {
-                return Some(pre as *const Node as *mut Node);
+        for level in (0..MAX_LEVEL).rev() {
+            loop {
+                let next = &*pre.get_node(level);
+                if next.is_tail() {
+                    break;
+                }
+                pre = next;
             }
-            pre = cur;
-            cur = &*cur.next_top_node();
         }
-    }
-
-    /// 找到最上层的下一个元素
-    #[inline]
-    unsafe fn next_top_node(&self) -> RawNode {
-        self.get_node(self.level - 1)
+        if pre.is_head() {
+            return None;
+        }
+        Some(pre as *const Node as *mut Node)
     }
 }
 
@@ -459,7 +460,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn seek_to_last(&mut self) {
         unsafe {
-            self.current = (&*self.current).seek_to_last().unwrap_or(self.tail)
+            self.current = (&*self.head).seek_to_last().unwrap_or(self.tail)
         }
     }
 
-- 
2.43.0


From 306b9dc5038accc1c24807af2eeacdf313579380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 26/52] fix: SkipList::to_string does not panic on keys that
 are not UTF-8

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1aa0a07..2b939fd 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -276,7 +276,7 @@ impl<Cmp: Comparator> ToString for SkipList<Cmp> {
                 tree.push_str("[head]");
                 while !node.is_head_or_tail() {
                     tree.push_str(" -> ");
-                    tree.push_str(node.key.unwrap().as_str());
+                    tree.push_str(&node.key.unwrap().to_string());
                     let level_str = format!("({})", node.level);
                     tree.push_str(level_str.as_str());
                     node = &*node.get_node(0);
-- 
2.43.0


From cac1776e09d78608997440550a293a7642e52eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 27/52] fix: a skip-list iterator keeps the arena it reads from
 alive

---
 src/db/skip_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 2b939fd..4ac67aa 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -48,6 +48,8 @@ pub struct Iter<Cmp: Comparator> {
     tail: RawNode,
     current: RawNode,
     cmp: Arc<Cmp>,
+    /// keeps the memory behind the keys and links alive while the iterator exists
+    _arena: ArenaRef,
 }
 
 impl<Cmp: Comparator> SkipList<Cmp> {
@@ -422,6 +424,7 @@ impl<Cmp: Comparator> Iter<Cmp> {
             tail: list.tail,
             current: list.head,
             cmp: list.cmp.clone(),
+            _arena: list.arena.clone(),
         }
     }
 }
-- 
2.43.0


From 7c14ba578d315c3c1ba6d5ae68ea3b6bf242e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 28/52] fix: log records that span a block boundary are
 fragmented at the boundary

---
 src/db/log_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 485ce95..39e01db 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -39,12 +39,12 @@ impl LogWriter {
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
-        let left_over = K_BLOCK_SIZE - self.block_offset;
-        assert!(left_over >= 0);
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
         while begin || left > 0 {
+            // what is left of the current block changes with every fragment written
+            let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
                     self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
-- 
2.43.0


From 14a8305254322ede7754ee07341a22af9f64cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 29/52] fix: the log writer never drops the tail of a short
 write

---
 src/db/log_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 39e01db..24d2996 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -47,7 +47,7 @@ impl LogWriter {
             let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
+                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -79,10 +79,10 @@ impl LogWriter {
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write(header.as_ref())?;
+        self.file_writer.write_all(header.as_ref())?;
         self.block_offset += K_HEADER_SIZE;
         if !data.is_empty() {
-            self.file_writer.write(data)?;
+            self.file_writer.write_all(data)?;
             self.block_offset += data.len();
         }
         self.file_writer.flush()?;
-- 
2.43.0


From baee51d98aa31ff19f4314b588f35687a92ccf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 30/52] fix: the log header stores the checksum as a fixed
 32-bit integer

---
 src/db/log_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 24d2996..9344c03 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -75,7 +75,7 @@ impl LogWriter {
         let mut crc = CRC::extend(self.type_crc[record_type as usize], data);
         crc = CRC::mask(crc);
         let mut header = [0_u8; K_HEADER_SIZE];
-        Encoder::with_buf(&mut header).put_varint32(crc);
+        Encoder::with_buf(&mut header).put_fixed32(crc)?;
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-- 
2.43.0


From 9d484e6db7c6fd5bbebea1de4b300efb7374ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 31/52] fix: CRC::unmask inverts CRC::mask for every value

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c2f0443..03de82b 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -471,7 +471,7 @@ impl CRC {
     /// ```
     #[inline]
     pub fn unmask(masked_crc: u32) -> u32 {
-        let rot = masked_crc - K_MASK_DELTA;
+        let rot = masked_crc.wrapping_sub(K_MASK_DELTA);
         (rot >> 17) | (rot << 15)
     }
 }
-- 
2.43.0


From 35f2964e3d290214a46cd838c0f9e1f1e105215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 32/52] fix: CRC::extend reads every byte once whatever the
 alignment of the data

---
 src/util/crc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index 03de82b..0b146c7 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -384,7 +384,7 @@ impl CRC {
         }
 
         if n - s >= 16 {
-            let mut decoder = Decoder::with_buf(data);
+            let mut decoder = Decoder::with_buf(&data[s..]);
             let mut crc0 = unsafe { decoder.uncheck_get_fixed32() } ^ l;
             let mut crc1 = unsafe { decoder.uncheck_get_fixed32() };
             let mut crc2 = unsafe { decoder.uncheck_get_fixed32() };
@@ -481,5 +481,5 @@ fn ptr_align_by4_offset(ptr: *const u8) -> usize {
     let addr = ptr as usize;
     // eg: addr = 10, output = 2
     // (addr+3) & !(addr-3)
-    addr % 4
+    (4 - addr % 4) % 4
 }
\ No newline at end of file
-- 
2.43.0


From 8ee1a4d1d00e99b4740985ed1cd169bb8628d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 33/52] fix: CRC::extend rotates the strides through the tail
 of the data

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index 0b146c7..d51163b 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -398,7 +398,7 @@ impl CRC {
             while (n - s) >= 4 {
                 step4!(crc0, data, decoder, s, 0);
                 // swap variables
-                (crc1, crc2, crc3) = (crc0, crc1, crc2);
+                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);
                 s += 4;
                 // println!("step4, c0: {:x}, c1: {:x}, c2: {:x}, c3: {:x}, s: {}", crc0, crc1, crc2, crc3, s);
             }
-- 
2.43.0


From 704e06695c62d2554b60f7d2ff9a6b3461dec519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 34/52] fix: the log reader ends at end of file and reassembles
 or rejects every record

---
 src/db/log_reader.rs | 120 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 90 insertions(+), 30 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 099240a..2be5592 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -1,8 +1,8 @@
 use std::fs::File;
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek};
 use std::io::SeekFrom::Start;
 
-use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
+use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_HEADER_SIZE, K_LAST_TYPE, K_MIDDLE_TYPE, K_ZERO_TYPE};
 use crate::util::coding::Decoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::Result;
@@ -14,6 +14,10 @@ pub struct LogReader {
     checksum: bool,
     read_pos: usize,
     eof: bool,
+    /// records that start before this offset are skipped
+    initial_offset: usize,
+    /// true until the first record that starts at or after initial_offset
+    resyncing: bool,
     buf: [u8; K_BLOCK_SIZE],
     buf_len: usize,
     buf_read_idx: usize,
@@ -37,45 +41,88 @@ impl LogReader {
             checksum,
             read_pos: block_start_location,
             eof: false,
+            initial_offset,
+            resyncing: initial_offset > 0,
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
             buf_read_idx: 0,
         }
     }
 
+    /// 读取下一条记录。文件结束时返回 `Ok(None)`；结尾处没有写完的记录视为不存在。
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
-            if self.buf_read_idx >= self.buf_len {
+            if self.buf_len - self.buf_read_idx < K_HEADER_SIZE {
+                // what is left cannot hold a header: the trailer of a block, or a record
+                // of which only a part was written before the end of the file
+                if self.eof {
+                    self.buf_read_idx = self.buf_len;
+                    return Ok(None);
+                }
                 self.read_buf()?;
+                continue;
+            }
+            let header_idx = self.buf_read_idx;
+            let data_len = (self.buf[header_idx + 4] as usize) + ((self.buf[header_idx + 5] as usize) << 8);
+            let record_type = self.buf[header_idx + 6];
+            let data_idx = header_idx + K_HEADER_SIZE;
+            if data_len > self.buf_len - data_idx {
+                self.buf_read_idx = self.buf_len;
+                if self.eof {
+                    return Ok(None);
+                }
+                return Err(Status::wrapper(LevelError::KCorruption, "bad record length".into()));
+            }
+            if record_type == K_ZERO_TYPE && data_len == 0 {
+                // preallocated space which holds no record
+                self.buf_read_idx = self.buf_len;
+                continue;
             }
-            let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
-            let record_type = self.buf[self.buf_read_idx + 6];
-            self.buf_read_idx += 7;
             // CRC check
-            self.check_crc(data_len)?;
+            if let Err(e) = self.check_crc(data_idx, data_len) {
+                // the length may be what is damaged, so the rest of the block is dropped
+                self.buf_read_idx = self.buf_len;
+                return Err(e);
+            }
+            let end_idx = data_idx + data_len;
+            self.buf_read_idx = end_idx;
+            if self.read_pos - self.buf_len + header_idx < self.initial_offset {
+                continue;
+            }
+            if self.resyncing {
+                // the tail of a record that starts before initial_offset
+                if record_type == K_MIDDLE_TYPE {
+                    continue;
+                }
+                self.resyncing = false;
+                if record_type == K_LAST_TYPE {
+                    continue;
+                }
+            }
+            let data = &self.buf[data_idx..end_idx];
             match record_type {
+                K_FULL_TYPE | K_FIRST_TYPE if tmp.is_some() => {
+                    // this record is returned by the next call
+                    self.buf_read_idx = header_idx;
+                    return Err(Status::wrapper(LevelError::KCorruption, "partial record without end".into()));
+                }
                 K_FULL_TYPE => {
-                    let end_idx = self.buf_read_idx + data_len;
-                    let data = &self.buf[self.buf_read_idx..end_idx];
-                    self.buf_read_idx += data_len;
                     return Ok(Some(Slice::from_buf(data)));
                 }
                 K_FIRST_TYPE => {
-                    tmp = Some(Vec::with_capacity(K_BLOCK_SIZE));
-                    let partial_data = &self.buf[self.buf_read_idx..];
-                    tmp.as_mut().unwrap().write(partial_data)?;
+                    tmp = Some(data.to_vec());
                 }
-                K_MIDDLE_TYPE => {
-                    tmp.as_mut().unwrap().write(self.buf.as_ref())?;
-                }
-                K_LAST_TYPE => {
-                    let end_idx = self.buf_read_idx + data_len;
-                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
-                    self.buf_read_idx += data_len;
-                    tmp.as_mut().unwrap().write(partial_data)?;
-                    let data = tmp.unwrap();
-                    return Ok(Some(Slice::from_vec(data)));
+                K_MIDDLE_TYPE | K_LAST_TYPE => {
+                    match tmp.as_mut() {
+                        Some(record) => record.extend_from_slice(data),
+                        None => {
+                            return Err(Status::wrapper(LevelError::KCorruption, "missing start of fragmented record".into()));
+                        }
+                    }
+                    if record_type == K_LAST_TYPE {
+                        return Ok(tmp.map(Slice::from_vec));
+                    }
                 }
                 _ => {
                     return Err(Status::wrapper(LevelError::KCorruption,
@@ -85,25 +132,38 @@ impl LogReader {
         }
     }
 
+    /// Read the next block, as much of it as the file holds
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
-        self.buf_len = self.file_reader.read(self.buf.as_mut())?;
-        if self.buf_len < K_BLOCK_SIZE {
-            self.eof = true;
+        self.buf_len = 0;
+        while self.buf_len < K_BLOCK_SIZE {
+            match self.file_reader.read(&mut self.buf[self.buf_len..]) {
+                Ok(0) => {
+                    self.eof = true;
+                    break;
+                }
+                Ok(n) => {
+                    self.buf_len += n;
+                    self.read_pos += n;
+                }
+                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(e) => return Err(e.into()),
+            }
         }
         Ok(())
     }
 
     #[inline]
-    fn check_crc(&self, data_len: usize) -> Result<()> {
+    fn check_crc(&self, data_idx: usize, data_len: usize) -> Result<()> {
         if !self.checksum {
             return Ok(());
         }
-        let crc_bytes = &self.buf[(self.buf_read_idx - 7)..(self.buf_read_idx - 3)];
+        let crc_bytes = &self.buf[(data_idx - K_HEADER_SIZE)..(data_idx - 3)];
         let mut decoder = Decoder::with_buf(crc_bytes);
 
         let expect = decoder.get_fixed32()?;
-        let data = &self.buf[(self.buf_read_idx - 1)..(self.buf_read_idx + data_len)];
+        // the type byte is covered by the checksum
+        let data = &self.buf[(data_idx - 1)..(data_idx + data_len)];
         let crc = data.as_crc();
         let mask = CRC::mask(crc);
         if expect == mask {
@@ -112,4 +172,4 @@ impl LogReader {
             Err(Status::wrapper(LevelError::KCorruption, "bad record, crc check failed".into()))
         }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From fbadb3c802ea69c9d9387a2d7dd4d12f8ea02519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 35/52] fix: removing the head of a hash chain detaches its
 successor

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 0c6b236..cb8bc62 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -220,7 +220,9 @@ impl<T> HandleTable<T> {
                     // 是头节点, 将头节点移交至下一节点
                     self.list[index] = handle_mut.next_hash;
                     // 下一节点的prev_hash要置空
-                    handle_mut.prev_hash = None;
+                    if let Some(mut next_hash) = handle_mut.next_hash {
+                        unsafe { next_hash.as_mut() }.prev_hash = None;
+                    }
                 } else {
                     // 是其余中间节点或尾节点, 删除当前节点并将下一节点移交给上一节点
                     let prev_hash_ptr = unsafe { handle_mut.prev_hash.unwrap().as_mut() };
-- 
2.43.0


From 0799292cf837d056a71da4751e746fc138253d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 36/52] fix: the cache frees an entry only after unlinking it
 from both lists

---
 src/util/cache.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index cb8bc62..af9d966 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -204,14 +204,14 @@ impl<T> HandleTable<T> {
         Ok(())
     }
 
-    /// 从hash表中删除数据, 并回收内存
+    /// 从hash表中删除数据, 内存由调用者在断开lru链表之后回收
     pub fn remove(&mut self, key: &Slice, hash: u32) -> Result<Option<HandleRef<T>>> {
         let index = self.find_index(hash);
         let mut head = self.list[index];
         // 获取hash槽位上的数据, 遍历到key相等时删除handle
         while let Some(mut handle) = head {
             let handle_mut = unsafe { handle.as_mut() };
-            // key相等进行删除, 这里只断开链表的连接, 内存在lru链表上回收
+            // key相等进行删除, 这里只断开链表的连接
             if &handle_mut.key == key {
                 if handle_mut.prev_hash.is_none() && handle_mut.next_hash.is_none() {
                     // 只有一个节点, 直接置空
@@ -233,8 +233,6 @@ impl<T> HandleTable<T> {
                         next_hash_ptr.prev_hash = handle_mut.prev_hash;
                     }
                 }
-                // 回收内存
-                Self::drop_handle(handle.as_ptr());
                 self.elements -= 1;
                 return Ok(Some(handle));
             }
@@ -353,7 +351,7 @@ impl<T> HandleTable<T> {
     }
 
     /// 将裸指针包装回Box并回收
-    /// 只能在hash表删除后回收内存, 在其他位置回收内存可能会double free, 或其他未定义行为
+    /// 只能在hash表和lru链表都删除后回收内存, 在其他位置回收内存可能会double free, 或其他未定义行为
     #[inline]
     fn drop_handle(handle_ptr: *mut LRUHandle<T>) {
         // 将指针包装回box, box会在作用域结束之后自动drop掉
@@ -430,8 +428,10 @@ impl<T> LRUCache<T> {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
                 self.lru_remove(tail)?;
-                // 于从hash表中删除链表尾, 同时回收内存
+                // 再从hash表中删除链表尾
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
+                // 两个链表都断开之后才能回收内存
+                HandleTable::drop_handle(tail.as_ptr());
             }
         }
 
@@ -459,12 +459,14 @@ impl<T> LRUCache<T> {
     /// 从lru缓存中删除数据, 同时回收内存
     pub fn erase(&mut self, key: &Slice, hash: u32) -> Result<usize> {
         let mut charge = 0;
-        // 先从hash表中删除, 同时回收内存
+        // 先从hash表中删除
         let removed_handle = self.table.remove(key, hash)?;
         if let Some(removed) = removed_handle {
             // 再删除lru链表中的数据
             self.lru_remove(removed)?;
             charge = unsafe { removed.as_ref().charge };
+            // 两个链表都断开之后才能回收内存
+            HandleTable::drop_handle(removed.as_ptr());
         }
 
         // 返回删除了多少数据量
-- 
2.43.0


From 90b8a873dd2692d9faf17ef0a133d715fdea5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 37/52] fix: inserting a key into the cache replaces its old
 entry

---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index af9d966..d719ceb 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -410,6 +410,8 @@ impl<T> LRUCache<T> {
     ///
     /// ```
     pub fn insert(&mut self, key: Slice, hash: u32, value: T, charge: usize) -> Result<()> {
+        // 相同的键只保留最新写入的数据
+        self.erase(&key, hash)?;
         let handle = LRUHandle::new_on_heap(
             key.clone(),
             value,
-- 
2.43.0


From d41a53f5db3b1335350a40e4266b7daeda9d15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 38/52] fix: cache eviction continues until the charge is below
 the capacity

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index d719ceb..1b6423a 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -425,7 +425,7 @@ impl<T> LRUCache<T> {
         self.usage += charge;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        if self.usage >= self.capacity {
+        while self.usage >= self.capacity {
             if let Some(tail) = self.tail_of_lru {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
@@ -434,6 +434,8 @@ impl<T> LRUCache<T> {
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
                 // 两个链表都断开之后才能回收内存
                 HandleTable::drop_handle(tail.as_ptr());
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From 8e32199ca08653fdba93628e3e2c95fb07e8bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 39/52] fix: prune frees every entry of a hash chain, not only
 its head

---
 src/util/cache.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 1b6423a..46d05b2 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -244,9 +244,13 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for handle in self.list.iter().filter(|v| v.is_some()) {
-            // 回收内存
-            Self::drop_handle(handle.unwrap().as_ptr());
+        for head in self.list.iter() {
+            // 回收槽位上整个链表的内存
+            let mut current = *head;
+            while let Some(handle) = current {
+                current = unsafe { handle.as_ref() }.next_hash;
+                Self::drop_handle(handle.as_ptr());
+            }
         }
         // 清空list恢复内存
         self.list.clear();
-- 
2.43.0


From 8e4d53a9f5edb2c464438319d78e2a07a6b694e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 40/52] fix: dropping the cache frees its entries

---
 src/util/cache.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 46d05b2..f056886 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -568,6 +568,13 @@ impl<T> LRUCache<T> {
     }
 }
 
+impl<T> Drop for LRUCache<T> {
+    fn drop(&mut self) {
+        // 回收还在缓存中的数据
+        self.table.prune();
+    }
+}
+
 macro_rules! cache_element {
     ($shard:expr, $capacity:expr, $default_length:expr) => (RwLock::new(LRUCache::new_with_capacity($shard, pre_shard($capacity), $default_length)));
 }
-- 
2.43.0


From d246749fb097a8d997fd7d0ee972c6ea0eaa583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 41/52] fix: find_shortest_separator shortens only what it
 incremented and never panics

---
 src/util/comparator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/comparator.rs b/src/util/comparator.rs
index 661a930..ca84886 100644
--- a/src/util/comparator.rs
+++ b/src/util/comparator.rs
@@ -78,10 +78,11 @@ impl Comparator for BytewiseComparatorImpl {
                 // 则将 start 差异字符位置+1的元素变更为 差异字符的next
                 (diff_byte + 1) < limit_char_vec[diff_index] {
                 start_char_vec[diff_index] = diff_byte + 1;
+                start_char_vec.truncate(diff_index + 1);
             }
         }
 
-        let shortest_separator: &[u8] = &start_char_vec[0..diff_index + 1];
+        let shortest_separator: &[u8] = &start_char_vec;
         let shortest_separator_val: String = Slice::from_buf(shortest_separator).into();
         shortest_separator_val
     }
-- 
2.43.0


From b2a298467c5be9bac2cee1539d1d74883d1b1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 42/52] fix: FilterBlockBuilder::start_block terminates

---
 src/table/filter_block.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9f0fb38..b6eda9b 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -157,11 +157,10 @@ impl FilterBlock for FilterBlockBuilder {
         // 计算出需要创建的filter的总数目. filters_number ==> filter_index
         let filters_number = block_offset / (FILTER_BASE as u64);
 
-        let len = self.filter_offsets.len() as u64;
-        assert!(filters_number >= len);
+        assert!(filters_number >= self.filter_offsets.len() as u64);
 
         // 当已经生成的filter的数目小于需要生成的filter的总数时，那么就继续创建filter。
-        while filters_number > len {
+        while filters_number > self.filter_offsets.len() as u64 {
             self.generate_new_filter();
         }
     }
-- 
2.43.0


From f6668c50fde9599a8dc81bdca4e595833c081ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 43/52] fix: FilterBlockBuilder::finish appends the offsets
 after the filters

---
 src/table/filter_block.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index b6eda9b..faff1dd 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -184,9 +184,8 @@ impl FilterBlock for FilterBlockBuilder {
         let array_offset = self.result.len() as u32;
 
         // 当前需要写入的位置。result 中可能存在数据，因此为 offset ==> self.result.len()  的位置
-        let dst: &mut Vec<u8> = &mut self.result;
-        // let mut dst_append = self.result.as_mut_slice();
-        let mut encoder = Encoder::with_vec(dst);
+        let mut dst: Vec<u8> = Vec::with_capacity(4 * self.filter_offsets.len() + 5);
+        let mut encoder = Encoder::with_vec(&mut dst);
         for i in 0..self.filter_offsets.len() {
             encoder.put_fixed32(self.filter_offsets[i])?;
         }
@@ -195,6 +194,8 @@ impl FilterBlock for FilterBlockBuilder {
         // Save encoding parameter in result
         encoder.put_varint64(FILTER_BASE_LG as u64)?;
 
+        self.result.extend_from_slice(&dst);
+
         Ok(Slice::from_buf(&self.result))
     }
 
-- 
2.43.0


From dbb4f20b796809da0f3afb5838eae8d44d8c3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 44/52] fix: FilterBlockBuilder::add_key accepts keys that are
 not UTF-8

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index faff1dd..0f38c69 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -172,7 +172,7 @@ impl FilterBlock for FilterBlockBuilder {
     fn add_key(&mut self, key: &Slice) {
         // start_记录key在keys的offset，因此可以还原出key
         self.start.push(self.keys.len());
-        self.keys.write(key.as_str().as_bytes()).expect("add_key error!");
+        self.keys.extend_from_slice(key.as_ref());
     }
 
     fn finish(&mut self) -> Result<Slice> {
-- 
2.43.0


From 7dd0cd9e8139c720ac71e40966dbb4838a2a8137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 45/52] fix: VersionEdit::encode_to writes the comparator name
 and the internal keys

---
 src/db/db_format.rs    |  5 +++++
 src/db/version_edit.rs | 12 ++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 921defc..d3ef989 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -187,6 +187,11 @@ impl InternalKey {
         self.rep_
     }
 
+    /// 借用编码后的内容
+    pub fn encoded(&self) -> &Slice {
+        &self.rep_
+    }
+
     /// 取得  Slice的长度
     pub fn encode_len(&self) -> usize {
         self.rep_.size()
diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index ec0a502..106edc4 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -205,9 +205,7 @@ impl VersionEdit {
         let mut encoder = Encoder::with_vec(target);
         if self.has_comparator_ {
             encoder.put_varint32(Tag::k_comparator.get_value() as u32)?;
-            encoder.put_varint32(self.comparator_.len() as u32)?;
-            // fixme 需要正确使用 put_length_prefixed_slice  将slice长度及slice内容编码到target
-            // encoder.put_length_prefixed_slice(self.comparator_.len())?;
+            encoder.put_length_prefixed_slice(&Slice::from(self.comparator_.as_str()))?;
         }
         if self.has_log_number_ {
             encoder.put_varint32(Tag::kLogNumber.get_value() as u32)?;
@@ -232,8 +230,7 @@ impl VersionEdit {
         for i in 0..self.compact_pointers_.len() {
             encoder.put_varint32(Tag::kCompactPointer.get_value() as u32)?;
             encoder.put_varint32(self.compact_pointers_[i].0)?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( self.compact_pointers_[i].1.encode_len())?;
+            encoder.put_length_prefixed_slice(self.compact_pointers_[i].1.encoded())?;
         }
 
         for i in 0..self.deleted_files_.len() {
@@ -249,9 +246,8 @@ impl VersionEdit {
             encoder.put_varint32(self.new_files_[i].0)?;
             encoder.put_varint64(f.get_number())?;
             encoder.put_varint64(f.get_file_size())?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( f.get_smallest().encode_len())?;
-            // encoder.put_length_prefixed_slice( f.get_largest().encode_len())?;
+            encoder.put_length_prefixed_slice(f.get_smallest().encoded())?;
+            encoder.put_length_prefixed_slice(f.get_largest().encoded())?;
         }
         Ok(())
     }
-- 
2.43.0


From 165aeb019afa09caa95342c028db7a8f52401294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 46/52] fix: VersionEdit::clear forgets the compact pointers

---
 src/db/version_edit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index 106edc4..f4cc5a3 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -126,8 +126,7 @@ impl VersionEdit {
         self.has_last_sequence_ = false;
         self.deleted_files_.clear();
         self.new_files_.clear();
-
-        // compact_pointers_ don't clear
+        self.compact_pointers_.clear();
     }
 
     pub fn set_comparator_name(&mut self, name: Slice) {
-- 
2.43.0


From ac50f1383e1d930fcb0a61fd3ae75ac6880acc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 47/52] fix: LinkedList::get_mut needs exclusive access to the
 list

---
 src/util/linked_list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/linked_list.rs b/src/util/linked_list.rs
index 8ffb8e6..653921e 100644
--- a/src/util/linked_list.rs
+++ b/src/util/linked_list.rs
@@ -192,7 +192,7 @@ pub trait LinkedListBuilder<T>: Default {
     fn get(&self, position: usize) -> Result<Option<&T>>;
 
     /// 得到第 position 元素, 返回可变引用类型
-    fn get_mut(&self, position: usize) -> Result<Option<&mut T>>;
+    fn get_mut(&mut self, position: usize) -> Result<Option<&mut T>>;
 
     // jdk LinkedList 中的方法：
     // public E	set(int index, E element)    replace， 用指定的元素替换此列表中指定位置的元素。
@@ -460,7 +460,7 @@ impl<T> LinkedListBuilder<T> for LinkedList<T> {
         unsafe { Ok(cur.as_ref().map(|node| &node.as_ref().val)) }
     }
 
-    fn get_mut(&self, position: usize) -> Result<Option<&mut T>> {
+    fn get_mut(&mut self, position: usize) -> Result<Option<&mut T>> {
         let mut cur = self.find_by_position_mut(position)?;
         unsafe { Ok(cur.as_mut().map(|node| &mut node.as_mut().val)) }
     }
-- 
2.43.0


From 453ce16dde9d68ffa87e500adcc5f8bf0b49bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 48/52] fix: dropping a LinkedList frees its nodes

---
 src/util/linked_list.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/linked_list.rs b/src/util/linked_list.rs
index 653921e..c2edddd 100644
--- a/src/util/linked_list.rs
+++ b/src/util/linked_list.rs
@@ -250,6 +250,16 @@ impl<T> Default for LinkedList<T> {
     }
 }
 
+impl<T> Drop for LinkedList<T> {
+    fn drop(&mut self) {
+        let mut cur = self.head.take();
+        while let Some(node) = cur {
+            let node = unsafe { Box::from_raw(node.as_ptr()) };
+            cur = node.next;
+        }
+    }
+}
+
 impl<T> LinkedListBuilder<T> for LinkedList<T> {
     #[inline]
     fn new() -> Self {
-- 
2.43.0


From d5b4f19cb49aaaea7de69a6609cc8785c46e79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 49/52] fix: build_table adds the first entry and reads none
 past the last

---
 src/db/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 5a35ddc..74d750f 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -68,11 +68,11 @@ impl BuildTable {
 
             // 调用迭代器，依次将每个键-值对加入 TableBuilder
             while iter.valid() {
-                iter.next();
-
                 let key = iter.key();
                 meta.get_largest().decode_from(&key);
                 builder.add(&key, &iter.value());
+
+                iter.next();
             }
 
             // Finish and check for builder errors
-- 
2.43.0


From adc4078e7ca0863b2f0d8f0bc9f8256607c6c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 50/52] fix: debug output is not cut short by a partial write

---
 src/util/debug.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/debug.rs b/src/util/debug.rs
index 5e6926e..f5e4c34 100644
--- a/src/util/debug.rs
+++ b/src/util/debug.rs
@@ -6,11 +6,11 @@
 #[macro_export]
 macro_rules! debug {
     () => {
-        std::io::stdout().write("\n".as_bytes()).unwrap();
+        std::io::stdout().write_all("\n".as_bytes()).unwrap();
     };
     ($($arg:tt)*) => {{
         use std::io::Write;
-        std::io::stdout().write(format!($($arg)*).as_bytes()).unwrap();
+        std::io::stdout().write_all(format!($($arg)*).as_bytes()).unwrap();
         debug!();
     }};
 }
-- 
2.43.0


From 12c50ec22e0b600322d0305f747eb6345c6811ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 51/52] fix: Options::default uses the documented bytewise
 comparator instead of panicking

---
 src/util/options.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/util/options.rs b/src/util/options.rs
index ba51a8c..e677fc8 100644
--- a/src/util/options.rs
+++ b/src/util/options.rs
@@ -1,6 +1,5 @@
 use std::sync::Arc;
 use crate::db::db::Snapshot;
-use crate::db::db_format::InternalKeyComparator;
 use crate::traits::comparator_trait::Comparator;
 use crate::traits::filter_policy_trait::{FilterPolicy, FilterPolicyPtr};
 use crate::util::comparator::BytewiseComparatorImpl;
@@ -141,7 +140,7 @@ pub struct WriteOptions {
 impl Default for Options {
     fn default() -> Self {
         Self {
-            cmp: Box::new(InternalKeyComparator::default()),
+            cmp: Box::new(BytewiseComparatorImpl::default()),
             create_if_missing: false,
             error_if_exists: false,
             paranoid_checks: false,
-- 
2.43.0


From 570fb43be24b56dc275aac919036805b82da165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:27 +0000
Subject: [PATCH 52/52] fix: hash of more than 5 GiB must wrap like the rest of
 the hash, not overflow

---
 src/util/hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/hash.rs b/src/util/hash.rs
index 71a0219..8fb5d05 100644
--- a/src/util/hash.rs
+++ b/src/util/hash.rs
@@ -1,4 +1,4 @@
-use std::ops::{BitXor, Mul};
+use std::ops::BitXor;
 use std::mem::size_of;
 use std::slice as stds;
 use crate::util::coding::Decoder;
@@ -137,7 +137,7 @@ impl Hash {
         let r: u32 = 24;
 
         let limit: usize = n;
-        let mul_first = n.mul(murmur_hash as usize); // x = data_size * murmur_hash
+        let mul_first = n.wrapping_mul(murmur_hash as usize); // x = data_size * murmur_hash
         let mut h: u32 = seed.bitxor(mul_first as u32);  // h = seed ^ x
 
         let mut decoder = Decoder::with_buf(data);
-- 
2.43.0

