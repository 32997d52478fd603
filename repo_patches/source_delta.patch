From 1119628204da98d6a175dc37c1ebffe595962613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 01/19] fix: report errors from flushing the file in
 write_to_file

---
 src/writable.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/writable.rs b/src/writable.rs
index 716fce8..2ed7a1f 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -236,8 +236,14 @@ pub trait Writable< C: Context > {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
         })?;
-        let stream = io::BufWriter::new( stream );
-        self.write_to_stream_with_ctx( context, stream )
+        let mut stream = io::BufWriter::new( stream );
+        self.write_to_stream_with_ctx( context, &mut stream )?;
+
+        // Dropping a `BufWriter` discards any errors, so it must be explicitly flushed.
+        stream.flush().map_err( |error| {
+            let error = Error::from_io_error( error );
+            <C::Error as From< Error >>::from( error )
+        })
     }
 
     #[inline]
-- 
2.43.0


From ad5122d4bfa9b3ae729cb0d85afdc7a1ff46edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 02/19] fix: retry interrupted reads when filling the stream
 buffer

---
 src/readable.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/readable.rs b/src/readable.rs
index d6d130a..720a09b 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -296,6 +296,16 @@ struct StreamReader< C: Context, S: Read > {
     is_buffering: bool
 }
 
+#[cfg(feature = "std")]
+fn read_retrying< S: Read >( reader: &mut S, chunk: &mut [u8] ) -> std::io::Result< usize > {
+    loop {
+        match reader.read( chunk ) {
+            Err( ref error ) if error.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result
+        }
+    }
+}
+
 #[cfg(feature = "std")]
 impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
     #[inline(never)]
@@ -304,7 +314,7 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             let reader = &mut self.reader;
             while self.buffer.len() < self.buffer.capacity() {
                 let bytes_written = self.buffer.try_append_with( self.buffer.capacity() - self.buffer.len(), |chunk| {
-                    reader.read( chunk )
+                    read_retrying( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
@@ -363,7 +373,7 @@ impl< 'a, C: Context, S: Read > Reader< 'a, C > for StreamReader< C, S > {
                 }
 
                 let bytes_written = self.buffer.try_append_with( chunk_size, |chunk| {
-                    reader.read( chunk )
+                    read_retrying( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
-- 
2.43.0


From e9d3b9c5df4e528d63e9d5bb2c22443c83749e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 03/19] fix: peek the bytes after the first one when peeking
 varints

---
 src/varint.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/varint.rs b/src/varint.rs
index 93e7b3c..4268a15 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -104,7 +104,7 @@ impl From< VarInt64 > for i64 {
 }
 
 macro_rules! impl_read {
-    ($reader:ident, $read_u8:ident, $read_bytes:ident) => {{
+    ($reader:ident, $read_u8:ident, |$slice:ident| $read_bytes:expr) => {{
         let first_byte = $reader.$read_u8()?;
         let length = (!first_byte).leading_zeros();
 
@@ -115,8 +115,8 @@ macro_rules! impl_read {
             ($count:expr) => {{
                 let mut value: u64 = 0;
                 {
-                    let slice = unsafe { core::slice::from_raw_parts_mut( &mut value as *mut u64 as *mut u8, $count ) };
-                    $reader.$read_bytes( slice )?;
+                    let $slice = unsafe { core::slice::from_raw_parts_mut( &mut value as *mut u64 as *mut u8, $count ) };
+                    $read_bytes?;
                 }
                 value = value.to_le();
                 Ok( VarInt64( upper_bits | value ) )
@@ -149,7 +149,7 @@ macro_rules! impl_read {
 impl< 'a, C: Context > Readable< 'a, C > for VarInt64 {
     #[inline]
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
-        impl_read!( reader, read_u8, read_bytes )
+        impl_read!( reader, read_u8, |slice| reader.read_bytes( slice ) )
     }
 
     #[inline]
@@ -164,7 +164,14 @@ impl VarInt64 {
         where C: Context,
               R: Reader< 'a, C >
     {
-        impl_read!( reader, peek_u8, peek_bytes )
+        impl_read!( reader, peek_u8, |slice| {
+            // Since we're only peeking the first byte has to be peeked again along with the rest.
+            let mut buffer = [0; 9];
+            let length = slice.len();
+            let result = reader.peek_bytes( &mut buffer[ ..length + 1 ] );
+            slice.copy_from_slice( &buffer[ 1..length + 1 ] );
+            result
+        })
     }
 }
 
-- 
2.43.0


From 259cbeaf8f3ceefaa32fa575fd3db99701611f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 04/19] fix: read every element of a vector of zero-sized
 elements

---
 src/reader.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index eb5febd..018b371 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -546,12 +546,11 @@ pub trait Reader< 'a, C: Context >: Sized {
             }
 
             let mut p = vec.as_mut_ptr();
-            let e = unsafe { p.add( length ) };
 
             // We deliberately have a separate counter instead
-            // of subtracting pointers as this optimizes better.
+            // of comparing pointers as the elements can be zero-sized.
             let mut count = 0;
-            while p < e {
+            while count < length {
                 let value = match self.read_value() {
                     Ok( value ) => value,
                     Err( error ) => {
-- 
2.43.0


From 11dd48d14e506bfc9ae2a37c146ae8e71ae5fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 05/19] fix: don't use raw byte copies for zero-sized elements

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 018b371..5db9d8b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -597,7 +597,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where T: Readable< 'a, C >,
               [T]: ToOwned< Owned = Vec< T > >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
                 let bytes = bytes?;
                 assert_eq!( bytes.len(), length * mem::size_of::< T >() );
@@ -641,7 +641,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where U: FromIterator< T >,
               T: Readable< 'a, C >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture() // TODO: Use different error maybe?
             })?;
@@ -667,7 +667,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         #[repr(packed)]
         struct Pair< K, V >( K, V );
 
-        if K::speedy_is_primitive() && V::speedy_is_primitive() && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
+        if K::speedy_is_primitive() && V::speedy_is_primitive() && mem::size_of::< Pair< K, V > >() != 0 && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture()
             })?;
-- 
2.43.0


From 1cd27b9afc851dcdf5b0410763324de99d309566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 06/19] fix: check for overflow of the byte length in read_cow

---
 src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5db9d8b..3f74928 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -598,9 +598,10 @@ pub trait Reader< 'a, C: Context >: Sized {
               [T]: ToOwned< Owned = Vec< T > >
     {
         if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
+            let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
+            if let Some( bytes ) = self.read_bytes_borrowed( bytesize ) {
                 let bytes = bytes?;
-                assert_eq!( bytes.len(), length * mem::size_of::< T >() );
+                assert_eq!( bytes.len(), bytesize );
 
                 if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {
                     let slice = unsafe { T::speedy_slice_from_bytes( bytes ) };
-- 
2.43.0


From 20526f33de6392a3c4b981c3508d1a430acc1abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 07/19] fix: report too long raw collections as an unexpected
 end of input

---
 src/reader.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3f74928..982878b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -643,9 +643,7 @@ pub trait Reader< 'a, C: Context >: Sized {
               T: Readable< 'a, C >
     {
         if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( || {
-                crate::error::error_too_big_usize_for_this_architecture() // TODO: Use different error maybe?
-            })?;
+            let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
 
             if let Some( bytes ) = self.read_bytes_borrowed_from_reader( bytesize ) {
                 let bytes = bytes?;
@@ -669,9 +667,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         struct Pair< K, V >( K, V );
 
         if K::speedy_is_primitive() && V::speedy_is_primitive() && mem::size_of::< Pair< K, V > >() != 0 && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
-            let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( || {
-                crate::error::error_too_big_usize_for_this_architecture()
-            })?;
+            let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( error_end_of_input )?;
 
             if let Some( bytes ) = self.read_bytes_borrowed_from_reader( bytesize ) {
                 let bytes = bytes?;
-- 
2.43.0


From d41e8d6f37141fc86a1bdc969ad5bf569c61703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 08/19] fix: don't trust the length from the input when
 preallocating vectors

---
 src/reader.rs | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 982878b..51ada5c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -53,6 +53,9 @@ impl< T > ExactSizeIterator for RawCopyIter< T > {
 }
 impl< T > core::iter::FusedIterator for RawCopyIter< T > {}
 
+#[cfg(feature = "alloc")]
+const UNTRUSTED_PREALLOCATION_SIZE: usize = 4 * 1024;
+
 pub trait Reader< 'a, C: Context >: Sized {
     fn read_bytes( &mut self, output: &mut [u8] ) -> Result< (), C::Error >;
     fn peek_bytes( &mut self, output: &mut [u8] ) -> Result< (), C::Error >;
@@ -526,11 +529,32 @@ pub trait Reader< 'a, C: Context >: Sized {
             return Err( error_end_of_input() );
         }
 
-        let mut vec = Vec::with_capacity( length );
+        // The length cannot be trusted unless we know that the reader actually has that much data,
+        // so in that case never reserve much more memory than what was already read.
+        let is_length_trusted = mem::size_of::< T >() == 0 || (required >= length && self.can_read_at_least( required ) == Some( true ));
+        let initial_length = if is_length_trusted {
+            length
+        } else {
+            core::cmp::min( length, core::cmp::max( 1, UNTRUSTED_PREALLOCATION_SIZE / mem::size_of::< T >() ) )
+        };
+
+        let mut vec: Vec< T > = Vec::with_capacity( initial_length );
         if T::speedy_is_primitive() {
-            unsafe {
-                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, vec.capacity() * core::mem::size_of::< T >() )?;
-                vec.set_len( length );
+            let mut count = 0;
+            let mut chunk_length = initial_length;
+            loop {
+                unsafe {
+                    self.read_bytes_into_ptr( vec.as_mut_ptr().add( count ) as *mut u8, chunk_length * core::mem::size_of::< T >() )?;
+                    count += chunk_length;
+                    vec.set_len( count );
+                }
+
+                if count == length {
+                    break;
+                }
+
+                chunk_length = core::cmp::min( length - count, count );
+                vec.reserve_exact( chunk_length );
             }
 
             T::speedy_convert_slice_endianness( self.endianness(), &mut vec );
@@ -546,11 +570,23 @@ pub trait Reader< 'a, C: Context >: Sized {
             }
 
             let mut p = vec.as_mut_ptr();
+            let mut reserved = initial_length;
 
             // We deliberately have a separate counter instead
             // of comparing pointers as the elements can be zero-sized.
             let mut count = 0;
             while count < length {
+                if count == reserved {
+                    unsafe {
+                        vec.set_len( count );
+                    }
+
+                    let chunk_length = core::cmp::min( length - count, count );
+                    vec.reserve_exact( chunk_length );
+                    reserved += chunk_length;
+                    p = unsafe { vec.as_mut_ptr().add( count ) };
+                }
+
                 let value = match self.read_value() {
                     Ok( value ) => value,
                     Err( error ) => {
-- 
2.43.0


From 4f1cb37874cf275194e6e4bea312e63376d12999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 09/19] fix: return an error for durations which are out of
 range

---
 src/error.rs         | 7 +++++++
 src/readable_impl.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 480f3ba..8d519df 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -9,6 +9,7 @@ pub enum ErrorKind {
     InvalidEnumVariant,
     InvalidUtf8,
     InvalidSystemTime,
+    OutOfRangeDuration,
     ZeroNonZero,
     OutOfRangeLength,
     OutOfRangeUsize,
@@ -92,6 +93,7 @@ impl core::fmt::Display for Error {
             ErrorKind::InvalidEnumVariant => write!( fmt, "invalid enum variant" ),
             ErrorKind::InvalidUtf8 => write!( fmt, "encountered invalid utf-8" ),
             ErrorKind::InvalidSystemTime => write!( fmt, "encountered invalid system time object" ),
+            ErrorKind::OutOfRangeDuration => write!( fmt, "out of range duration" ),
             ErrorKind::ZeroNonZero => write!( fmt, "a field which is supposed to be non-zero is zero" ),
             ErrorKind::OutOfRangeLength => write!( fmt, "out of range length" ),
             ErrorKind::OutOfRangeUsize => write!( fmt, "value cannot fit into an usize on this architecture" ),
@@ -205,6 +207,11 @@ pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
 }
 
+#[cold]
+pub fn error_out_of_range_duration< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::OutOfRangeDuration ) )
+}
+
 #[cfg(feature = "alloc")]
 #[cold]
 pub fn error_expected_constant< T >( constant: &'static [u8] ) -> T where T: From< Error > {
diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 032b114..4dadad1 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -562,7 +562,11 @@ impl< 'a, C > Readable< 'a, C > for core::time::Duration where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let secs = reader.read_u64()?;
         let nanos = reader.read_u32()?;
-        Ok( core::time::Duration::new( secs, nanos ) )
+
+        // The nanoseconds can be bigger than a second, in which case they'll carry over into the seconds.
+        core::time::Duration::from_secs( secs )
+            .checked_add( core::time::Duration::from_nanos( nanos as u64 ) )
+            .ok_or_else( crate::error::error_out_of_range_duration )
     }
 
     #[inline]
-- 
2.43.0


From b299dd5cd5cfa121140433ee01ae3aa21b80667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 10/19] fix: return an error for chrono timestamps which are
 out of range

---
 src/error.rs      | 2 +-
 src/ext_chrono.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8d519df..c50f88d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -201,7 +201,7 @@ pub fn error_zero_non_zero< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::ZeroNonZero ) )
 }
 
-#[cfg(feature = "std")]
+#[cfg(any(feature = "std", feature = "chrono"))]
 #[cold]
 pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
diff --git a/src/ext_chrono.rs b/src/ext_chrono.rs
index 5397a71..8cfde2a 100644
--- a/src/ext_chrono.rs
+++ b/src/ext_chrono.rs
@@ -20,7 +20,7 @@ impl< 'a, C > Readable< 'a, C > for DateTime< Utc >
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let seconds = reader.read_i64()?;
         let subsec_nanos = reader.read_u32()?;
-        Ok( Utc.timestamp( seconds, subsec_nanos ) )
+        Utc.timestamp_opt( seconds, subsec_nanos ).single().ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From 71843fe00bafede50410e7a2c3759dac3b5f7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 11/19] fix: don't trust readers which claim to have read more
 than was asked for

---
 src/circular_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/circular_buffer.rs b/src/circular_buffer.rs
index 8321eb5..ca97787 100644
--- a/src/circular_buffer.rs
+++ b/src/circular_buffer.rs
@@ -290,8 +290,12 @@ impl CircularBuffer {
         self.reserve( size );
 
         let (range, _) = empty( self.position, self.length, self.buffer.len(), size );
+        let chunk_length = range.len();
         let bytes_written = callback( &mut self.buffer[ range ] )?;
 
+        // The callback can be a broken `Read` implementation.
+        assert!( bytes_written <= chunk_length );
+
         self.length += bytes_written;
         Ok( bytes_written )
     }
-- 
2.43.0


From 761ce34ccb8d1d0c2027c1553054de76c98f2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 12/19] fix: don't treat structs with field attributes as raw
 bytes when they're transparent or zero-copyable

---
 speedy-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6dd2f61..d6a2f54 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2118,7 +2118,7 @@ struct IsPrimitiveResult {
 
 fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &ToplevelStructAttributes ) -> IsPrimitiveResult {
     let is_ty_packed = is_packed( &input.attrs );
-    let is_ty_transparent = structure.fields.len() == 1 && is_transparent( &input.attrs );
+    let is_ty_transparent = structure.fields.len() == 1 && is_transparent( &input.attrs ) && structure.fields[ 0 ].can_be_primitive();
     let is_ty_c = is_c( &input.attrs );
     let is_ty_simple = structure.fields.iter().all( |field| field.is_simple() );
     let check_order = !is_ty_transparent && !is_ty_packed && !is_ty_c;
@@ -2137,7 +2137,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
         is_ty_transparent,
         is_ty_potentially_primitive: can_be_primitive && (is_forced || is_ty_transparent || is_ty_packed || is_ty_c || is_ty_simple || (!uses_generics( &input ) && structure.fields.len() <= 4)),
         check_order,
-        impl_zerocopyable: is_ty_packed || is_ty_transparent || is_forced,
+        impl_zerocopyable: can_be_primitive && (is_ty_packed || is_ty_transparent || is_forced),
         is_forced
     }
 }
-- 
2.43.0


From 2ac51212f6b38237b82859279ca98303e27bb4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 13/19] fix: allow transparent structs to be fields of structs
 which are read as raw bytes

---
 speedy-derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index d6a2f54..d188632 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2177,6 +2177,13 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                         core::slice::from_raw_parts( slice.as_ptr() as *const Self, slice.len() )
                     }
 
+                    #[inline(always)]
+                    unsafe fn speedy_flip_endianness( itself: *mut Self ) {
+                        unsafe {
+                            <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_flip_endianness( itself as *mut #field_ty );
+                        }
+                    }
+
                     #[inline(always)]
                     fn speedy_convert_slice_endianness( endianness: speedy::Endianness, slice: &mut [Self] ) {
                         unsafe {
-- 
2.43.0


From ee739d9a80657dca75316265e1327552485201ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 14/19] fix: don't create misaligned references when borrowing
 slices

---
 speedy-derive/src/lib.rs     |  2 ++
 src/error.rs                 |  7 +++++++
 src/private.rs               | 16 ++++++++++++++++
 src/readable_unsized_impl.rs |  2 ++
 4 files changed, 27 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index d188632..d64f8d3 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1580,12 +1580,14 @@ fn read_field_body( field: &Field ) -> TokenStream {
                             .ok_or_else( speedy::private::error_unsized )
                             .and_then( |error| error )
                     })
+                    .and_then( speedy::private::check_alignment::< #inner_ty, C_::Error > )
                     .map( |slice| unsafe { core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, _length_ ) } )
             }}
         } else {
             inner = quote! {{
                 _reader_.read_bytes_borrowed_until_eof()
                     .ok_or_else( speedy::private::error_unsized )
+                    .and_then( speedy::private::check_alignment::< #inner_ty, C_::Error > )
                     .map( |slice| unsafe {
                         core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, slice.len() / core::mem::size_of::< #inner_ty >() )
                     })
diff --git a/src/error.rs b/src/error.rs
index c50f88d..d039f44 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -33,6 +33,7 @@ pub enum ErrorKind {
 
     Unsized,
     EndiannessMismatch,
+    Misaligned,
 
     #[cfg(feature = "std")]
     IoError( std::io::Error )
@@ -105,6 +106,7 @@ impl core::fmt::Display for Error {
             ErrorKind::ExpectedConstant { constant } => write!( fmt, "expected a predefined {} bytes(s) long constant", constant.len() ),
             ErrorKind::Unsized => write!( fmt, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it" ),
             ErrorKind::EndiannessMismatch => write!( fmt, "endianness mismatch" ),
+            ErrorKind::Misaligned => write!( fmt, "the data is not sufficiently aligned to be borrowed" ),
 
             #[cfg(feature = "std")]
             ErrorKind::IoError( ref error ) => write!( fmt, "{}", error ),
@@ -223,6 +225,11 @@ pub fn error_unsized< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::Unsized ) )
 }
 
+#[cold]
+pub fn error_misaligned< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::Misaligned ) )
+}
+
 #[cold]
 pub fn error_endianness_mismatch< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::EndiannessMismatch ) )
diff --git a/src/private.rs b/src/private.rs
index 40076e6..a33ab6e 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -24,6 +24,7 @@ pub use crate::error::{
     error_invalid_str_utf8,
     error_unsized,
     error_endianness_mismatch,
+    error_misaligned,
 
     get_error_kind,
 };
@@ -54,6 +55,21 @@ pub fn cow_bytes_to_cow_str< E >( bytes: Cow<'_, [u8] > ) -> Result< Cow<'_, str
     }
 }
 
+/// Checks whether the borrowed bytes can be cast into a slice of type `T`.
+#[inline(always)]
+pub fn check_alignment< T, E >( bytes: &[u8] ) -> Result< &[u8], E > where E: From< crate::Error > {
+    if core::mem::align_of::< T >() != 1 && bytes.as_ptr() as usize % core::mem::align_of::< T >() != 0 {
+        if !bytes.is_empty() {
+            return Err( error_misaligned() );
+        }
+
+        // An empty slice doesn't have to point anywhere in particular.
+        return Ok( unsafe { core::slice::from_raw_parts( core::ptr::NonNull::< T >::dangling().as_ptr() as *const u8, 0 ) } );
+    }
+
+    Ok( bytes )
+}
+
 #[inline]
 pub fn write_length_u64_varint< C, W >( length: usize, writer: &mut W ) -> Result< (), C::Error >
     where C: Context,
diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 1285686..c1e9d8b 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -42,6 +42,7 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
         let length = crate::private::read_length( reader )?;
         let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
         let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( crate::error::error_unsized )??;
+        let bytes = crate::private::check_alignment::< T, C::Error >( bytes )?;
         let slice = unsafe {
             core::slice::from_raw_parts( bytes.as_ptr() as *const T, length )
         };
@@ -69,6 +70,7 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
         }
 
         let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
+        let bytes = crate::private::check_alignment::< T, C::Error >( bytes )?;
         let slice = unsafe { cast_slice( bytes ) };
         Ok( slice )
     }
-- 
2.43.0


From b7e2508d038ce2d3ed3d4fead0b65d7b0639a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 15/19] fix: use the default for an optional field when the
 input ends inside of its length

---
 speedy-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index d64f8d3..fb3ebd7 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1423,7 +1423,8 @@ fn read_field_body( field: &Field ) -> TokenStream {
                 speedy::private::#read_length_fn( _reader_ )
             };
 
-            if field.default_on_eof {
+            // If this is an `Option` then hitting the end here should result in a `None`, not in an empty `Some`.
+            if field.default_on_eof && matches!( field.ty, Opt::Plain( .. ) ) {
                 Some( default_on_eof_body( body ) )
             } else {
                 Some( quote! { #body? } )
-- 
2.43.0


From 0ad57d91d32b2e06d14c81235550cfe95b640694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 16/19] fix: don't parse leftover bytes after hitting the end
 of input inside of a field

---
 speedy-derive/src/lib.rs |  8 +++++++-
 src/private.rs           | 17 +++++++++++++++++
 src/reader.rs            | 12 ++++++++++--
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index fb3ebd7..5dd7722 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1393,7 +1393,13 @@ fn default_on_eof_body( body: TokenStream ) -> TokenStream {
     quote! {
         match #body {
             Ok( value ) => value,
-            Err( ref error ) if speedy::IsEof::is_eof( error ) => core::default::Default::default(),
+            Err( ref error ) if speedy::IsEof::is_eof( error ) => {
+                // There might be some leftovers which must not be read by whatever comes next.
+                if let Err( error ) = speedy::private::skip_until_eof( _reader_ ) {
+                    return Err( error );
+                }
+                core::default::Default::default()
+            },
             Err( error ) => return Err( error )
         }
     }
diff --git a/src/private.rs b/src/private.rs
index a33ab6e..9dfefa1 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -1,6 +1,7 @@
 use {
     crate::{
         Context,
+        IsEof,
         Readable,
         Reader,
         Writable,
@@ -55,6 +56,22 @@ pub fn cow_bytes_to_cow_str< E >( bytes: Cow<'_, [u8] > ) -> Result< Cow<'_, str
     }
 }
 
+/// Skips whatever is left in the reader.
+#[inline(never)]
+#[cold]
+pub fn skip_until_eof< 'a, C, R >( reader: &mut R ) -> Result< (), C::Error >
+    where C: Context,
+          R: Reader< 'a, C >
+{
+    loop {
+        match reader.read_u8() {
+            Ok( _ ) => {},
+            Err( error ) if error.is_eof() => return Ok(()),
+            Err( error ) => return Err( error )
+        }
+    }
+}
+
 /// Checks whether the borrowed bytes can be cast into a slice of type `T`.
 #[inline(always)]
 pub fn check_alignment< T, E >( bytes: &[u8] ) -> Result< &[u8], E > where E: From< crate::Error > {
diff --git a/src/reader.rs b/src/reader.rs
index 51ada5c..75313dd 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -618,7 +618,10 @@ pub trait Reader< 'a, C: Context >: Sized {
         loop {
             let value = match self.read_value() {
                 Ok( value ) => value,
-                Err( error ) if error.is_eof() => break,
+                Err( error ) if error.is_eof() => {
+                    crate::private::skip_until_eof( self )?;
+                    break;
+                },
                 Err( error ) => return Err( error )
             };
             vec.push( value );
@@ -725,7 +728,12 @@ pub trait Reader< 'a, C: Context >: Sized {
         core::iter::from_fn( move || {
             match self.read_value::< T >() {
                 Ok( value ) => Some( Ok( value ) ),
-                Err( error ) if error.is_eof() => None,
+                Err( error ) if error.is_eof() => {
+                    match crate::private::skip_until_eof( self ) {
+                        Ok(()) => None,
+                        Err( error ) => Some( Err( error ) )
+                    }
+                },
                 Err( error ) => Some( Err( error ) )
             }
         }).collect()
-- 
2.43.0


From f9ebca5c8be548daba018d4d051d10d384e96b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 17/19] fix: don't count a peeked enum tag as bytes needed in
 addition to what follows it

---
 speedy-derive/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 5dd7722..fd76eab 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2267,6 +2267,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let enumeration = Enum::new( &name, &input.attrs, &variants )?;
             let mut variant_matches = Vec::with_capacity( variants.len() );
             let mut variant_minimum_sizes = Vec::with_capacity( variants.len() );
+            let mut are_variant_minimum_sizes_exhaustive = true;
             for variant in enumeration.variants {
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
@@ -2279,10 +2280,10 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                     }
                 });
 
-                if variant.structure.kind != StructKind::Unit {
-                    if variant.structure.is_guaranteed_non_recursive() {
-                        variant_minimum_sizes.push( minimum_bytes );
-                    }
+                if variant.structure.kind != StructKind::Unit && variant.structure.is_guaranteed_non_recursive() {
+                    variant_minimum_sizes.push( minimum_bytes );
+                } else {
+                    are_variant_minimum_sizes_exhaustive = false;
                 }
             }
 
@@ -2318,12 +2319,19 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                     _ => Err( speedy::private::error_invalid_enum_variant() )
                 }
             };
-            let minimum_bytes_needed_body = min( variant_minimum_sizes.into_iter() );
             let minimum_bytes_needed_body =
                 if !enumeration.peek_tag {
+                    let minimum_bytes_needed_body = min( variant_minimum_sizes.into_iter() );
                     quote! { (#minimum_bytes_needed_body) + #tag_size }
+                } else if are_variant_minimum_sizes_exhaustive && !variant_minimum_sizes.is_empty() {
+                    // The tag's only peeked, so it might also be counted as part of whatever comes next.
+                    quote! {{
+                        let mut out = core::usize::MAX;
+                        #(out = core::cmp::min( out, #variant_minimum_sizes );)*
+                        out
+                    }}
                 } else {
-                    quote! { core::cmp::max( #minimum_bytes_needed_body, #tag_size ) }
+                    quote! { 0 }
                 };
 
             (reader_body, minimum_bytes_needed_body, quote! {}, quote! {})
-- 
2.43.0


From 50365f7dcc56c6009fcf8ac7e8644c31086db02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 18/19] fix: don't hand out uninitialized memory to the streams
 which are read from

---
 src/circular_buffer.rs | 14 ++++----------
 src/readable.rs        |  2 ++
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/circular_buffer.rs b/src/circular_buffer.rs
index ca97787..5030f48 100644
--- a/src/circular_buffer.rs
+++ b/src/circular_buffer.rs
@@ -215,13 +215,9 @@ impl CircularBuffer {
     }
 
     pub fn with_capacity( capacity: usize ) -> Self {
-        let mut buffer = Vec::with_capacity( capacity );
-        unsafe {
-            buffer.set_len( capacity );
-            if cfg!( debug_assertions ) {
-                std::ptr::write_bytes( buffer.as_mut_ptr(), 0xFF, buffer.len() );
-            }
-        }
+        // This is handed out to `Read` implementations which are not ours, so it has to be initialized.
+        let fill = if cfg!( debug_assertions ) { 0xFF } else { 0 };
+        let buffer = vec![ fill; capacity ];
 
         CircularBuffer {
             buffer: buffer.into_boxed_slice(),
@@ -271,9 +267,7 @@ impl CircularBuffer {
         }
 
         new_capacity = new_buffer.capacity();
-        unsafe {
-            new_buffer.set_len( new_capacity );
-        }
+        new_buffer.resize( new_capacity, 0 );
 
         let (a, b) = occupied( self.position, self.length, self.buffer.len() );
         new_buffer[ 0..a.len() ].copy_from_slice( &self.buffer[ a.clone() ] );
diff --git a/src/readable.rs b/src/readable.rs
index 720a09b..24b8e01 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -344,6 +344,8 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             return Ok(());
         }
 
+        // The output can be uninitialized, and the `Read` implementation we're about to hand it to is not ours.
+        output.fill( 0 );
         self.reader.read_exact( output ).map_err( |error| {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
-- 
2.43.0


From e56ffa15ee9344e51f6497d15018c0ba7d769ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 19/19] fix: encode IPv6 addresses the same way on big endian
 machines

The octets were reversed depending on whether the byte order differs from the
machine's own instead of depending on the byte order itself, so a big endian
machine produced and expected the opposite order of what every little endian
machine does.
---
 src/readable_impl.rs | 2 +-
 src/writable_impl.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 4dadad1..d51de08 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -527,7 +527,7 @@ impl< 'a, C > Readable< 'a, C > for core::net::Ipv6Addr where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let mut octets = [0; 16];
         reader.read_bytes( &mut octets )?;
-        if !reader.endianness().conversion_necessary() {
+        if reader.endianness() == Endianness::LittleEndian {
             octets.reverse();
         }
 
diff --git a/src/writable_impl.rs b/src/writable_impl.rs
index da28115..5bf94aa 100644
--- a/src/writable_impl.rs
+++ b/src/writable_impl.rs
@@ -615,7 +615,7 @@ impl< C > Writable< C > for core::net::Ipv6Addr where C: Context {
     #[inline]
     fn write_to< W >( &self, writer: &mut W ) -> Result< (), C::Error > where W: ?Sized + Writer< C > {
         let mut octets = self.octets();
-        if !writer.endianness().conversion_necessary() {
+        if writer.endianness() == Endianness::LittleEndian {
             octets.reverse();
         }
 
-- 
2.43.0

