From f77011751c1eeb4261e620c7aad0aa619c84b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 01/15] fix: read and write the last byte of fields that span
 nine bytes at any offset

The ninth byte was looked up relative to the wrong base, unless the field
started in the first byte of the struct: reading used the byte offset twice,
writing not at all.
---
 src/bytereader.rs | 2 +-
 src/bytewriter.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bytereader.rs b/src/bytereader.rs
index b8238e5..cace152 100644
--- a/src/bytereader.rs
+++ b/src/bytereader.rs
@@ -39,7 +39,7 @@ macro_rules! read_bytes {
             result >>= bit_offset;
 
             if num_bytes * 8 - bit_offset < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << (num_bytes * 8 - bit_offset) % (num_bytes * 8);
             }
             result = masked!(result, $num_bits);
diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 5c50dfb..f73b2b1 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -63,7 +63,8 @@ macro_rules! write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes!($offset, $num_bits) * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes!($offset, $num_bits)] as *mut u8;
+            let destination =
+                &mut $data[$offset / 8 + num_bytes!($offset, $num_bits)] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             unsafe {
-- 
2.43.0


From 85b5af2a08f186b0df22b84a978701cfc2d2aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 02/15] fix: do not overflow when checking the stored size of a
 resource

A size header close to the maximum overflowed the comparison, which panics in
debug builds instead of reporting an unexpected size.
---
 src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index bda364f..b9ad6f9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -108,7 +108,7 @@ pub trait ResourceStorage {
         }
 
         let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From d0bfcf27494d642928a17b748576b13c92c947c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 03/15] fix: do not let an unfinished resource look like a
 finished empty one

The size reserved when starting a vector or multivector was 0, which is valid
as soon as the padding is written: dying right before the size was updated left
a resource that opened as an empty one, whatever had been written to it.
---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b9ad6f9..364cbbb 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -283,10 +283,11 @@ impl<'a> ResourceHandle<'a> {
         stream: Rc<RefCell<Stream>>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. The placeholder never matches the size of any data, such that a
+        // resource which was not closed is not mistaken for an empty one.
         {
             let mut mut_stream = stream.borrow_mut();
-            write_size(0u64, mut_stream.deref_mut())?;
+            write_size(SizeType::max_value(), mut_stream.deref_mut())?;
         }
         Ok(Self {
             stream: Some(stream),
-- 
2.43.0


From 1090046099f05bbfc4642d4deb772d6c56c99112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 04/15] fix: do not panic when finishing or starting a writer
 fails

If closing a vector or multivector failed, or starting a multivector failed
after its index was created, the error was never returned: the still open
resource handles panicked when dropped on the way out. Give up the handles of a
writer before reporting the error.
---
 src/multivector.rs | 16 +++++++++++++---
 src/storage.rs     | 48 ++++++++++++++++++++++++++++++----------------
 src/vector.rs      | 14 +++++++++++---
 3 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e0f576e..663c19a 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -199,9 +199,19 @@ where
     pub fn close(mut self) -> Result<MultiArrayView<'a, Idx, Ts>, ResourceStorageError> {
         let name: String = self.data_handle.name().into();
         let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
-        self.add_to_index().map_err(into_storage_error)?; // sentinel for last item
-        self.flush().map_err(into_storage_error)?;
-        let index_view = self.index.close()?;
+        // sentinel for last item
+        if let Err(e) = self.add_to_index().and_then(|_| self.flush()) {
+            self.index.abandon();
+            self.data_handle.abandon();
+            return Err(into_storage_error(e));
+        }
+        let index_view = match self.index.close() {
+            Ok(view) => view,
+            Err(e) => {
+                self.data_handle.abandon();
+                return Err(e);
+            }
+        };
         let data = self.data_handle.close()?;
         Ok(MultiArrayView::new(index_view, data))
     }
diff --git a/src/storage.rs b/src/storage.rs
index 364cbbb..48929fe 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -143,16 +143,25 @@ pub fn create_external_vector<'a, T>(
 where
     T: for<'b> Struct<'b>,
 {
+    let handle = create_resource_handle(storage, resource_name, schema)?;
+    Ok(ExternalVector::new(handle))
+}
+
+/// Writes the schema of a resource to the given storage, and returns a handle
+/// for writing its data.
+fn create_resource_handle<'a>(
+    storage: &'a ResourceStorage,
+    resource_name: &str,
+    schema: &str,
+) -> io::Result<ResourceHandle<'a>> {
     // write schema
     let schema_name = format!("{}.schema", resource_name);
     let stream = storage.create_output_stream(&schema_name)?;
     stream.borrow_mut().write_all(schema.as_bytes())?;
 
-    // create external vector
+    // create data
     let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
-    Ok(ExternalVector::new(handle))
+    ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
 }
 
 /// Helper for creating a multivector in the given resource storage.
@@ -174,16 +183,14 @@ where
     let index_schema = format!("index({})", schema);
     let index = create_external_vector(storage, &index_name, &index_schema)?;
 
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
-
-    // create multi vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
-    Ok(MultiVector::new(index, handle))
+    // create data
+    match create_resource_handle(storage, resource_name, schema) {
+        Ok(handle) => Ok(MultiVector::new(index, handle)),
+        Err(e) => {
+            index.abandon();
+            Err(e)
+        }
+    }
 }
 
 /// Creates a new archive in resource storage.
@@ -317,14 +324,24 @@ impl<'a> ResourceHandle<'a> {
         res
     }
 
+    /// Gives up writing to the underlying stream, without finalizing the
+    /// resource.
+    ///
+    /// Used when writing failed, and the failure is reported to the user.
+    pub(crate) fn abandon(&mut self) {
+        self.stream = None;
+    }
+
     /// Close the underlying stream and write the header containing the size in
     /// bytes of written data.
+    ///
+    /// The stream is closed even if an error is returned.
     pub fn close(&mut self) -> Result<&'a [u8], ResourceStorageError> {
         {
             let resource_name = self.name.clone();
             let into_storage_error =
                 |e| ResourceStorageError::from_io_error(e, resource_name.clone());
-            let stream = self.stream.as_ref().ok_or_else(|| {
+            let stream = self.stream.take().ok_or_else(|| {
                 into_storage_error(io::Error::new(
                     io::ErrorKind::UnexpectedEof,
                     "stream closed",
@@ -341,7 +358,6 @@ impl<'a> ResourceHandle<'a> {
             write_size(self.size_in_bytes as u64, mut_stream.deref_mut())
                 .map_err(into_storage_error)?;
         }
-        self.stream = None;
         // return underlying memory descriptor to the written data
         self.storage.read(&self.name, &self.schema)
     }
diff --git a/src/vector.rs b/src/vector.rs
index 3300250..aa54a18 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -334,13 +334,21 @@ where
     ///
     /// An external vector *must* be closed, otherwise it will panic on drop
     pub fn close(mut self) -> Result<ArrayView<'a, T>, ResourceStorageError> {
-        self.flush().map_err(|e| {
-            ResourceStorageError::from_io_error(e, self.resource_handle.name().into())
-        })?;
+        if let Err(e) = self.flush() {
+            let name = self.resource_handle.name().into();
+            self.abandon();
+            return Err(ResourceStorageError::from_io_error(e, name));
+        }
         self.resource_handle
             .close()
             .map(|data| ArrayView::new(data))
     }
+
+    /// Gives up writing this vector, without finalizing the data inside the
+    /// storage.
+    pub(crate) fn abandon(mut self) {
+        self.resource_handle.abandon();
+    }
 }
 
 impl<T> fmt::Debug for ExternalVector<'_, T>
-- 
2.43.0


From 58847b5309fd679874ca7b7d33b949115260ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 05/15] fix: keep subdirectories of a memory storage in that
 storage

Each call of subdir returned a new empty storage, such that nothing written to
a subarchive in memory could be read again through the parent storage.
---
 src/memstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a48dc26..57901ab 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -33,7 +33,8 @@ impl fmt::Debug for MemoryStorage {
 /// Resource storage in memory.
 #[derive(Debug)]
 pub struct MemoryResourceStorage {
-    storage: MemoryStorage,
+    // Shared with the storages of subdirectories
+    storage: Rc<MemoryStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +46,7 @@ impl MemoryResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryStorage::default(),
+            storage: Rc::new(MemoryStorage::default()),
             path: path.into(),
         })
     }
@@ -55,7 +56,10 @@ impl Stream for Cursor<Vec<u8>> {}
 
 impl ResourceStorage for MemoryResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From d4a26b9cf55d6d54013a5f631e46233c7a79749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 06/15] fix: replace a resource written again in memory

Creating an output stream for an existing resource of a memory storage returned
the stream of the previous content, positioned behind it, such that writing a
resource again appended to it and left it unreadable.
---
 src/memstorage.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 57901ab..616ad91 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -100,13 +100,12 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        // A resource written again is replaced, and not appended to or overwritten in part
+        let stream: MemoryStorageStream = Rc::new(RefCell::new(Cursor::new(Vec::new())));
+        self.storage
             .streams
             .borrow_mut()
-            .entry(resource_path)
-            .or_insert_with(|| Rc::new(RefCell::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(stream)
     }
 }
-- 
2.43.0


From 6a82c765f45a3fad78a9f56b0bf39e9c1950e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 07/15] fix: show what was written after an early read in a
 memory storage

The copy made when a resource was read the first time was returned forever, even
if the resource was still being written at that time or was written again later.
In particular, closing a writer of a resource which was read before always
failed.
---
 src/memstorage.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 616ad91..cbd5195 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -17,6 +17,9 @@ struct MemoryStorage {
     streams: RefCell<BTreeMap<PathBuf, MemoryStorageStream>>,
     // Data of resources that were opened for reading.
     resources: RefCell<BTreeMap<PathBuf, Rc<Vec<u8>>>>,
+    // Data of resources that were opened for reading, and written to afterwards. It might still be
+    // referenced.
+    outdated_resources: RefCell<Vec<Rc<Vec<u8>>>>,
 }
 
 impl fmt::Debug for MemoryStorage {
@@ -70,25 +73,28 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self.storage.resources.borrow().contains_key(&resource_path) {
+        {
             let streams = self.storage.streams.borrow();
-            let stream = streams.get(&resource_path);
-            match stream {
-                Some(stream) => {
-                    // Resource is not yet opened, but there is a stream it was written to
-                    // => copy the stream as resource data.
-                    let data = Rc::new(stream.borrow().get_ref().clone());
-                    self.storage
-                        .resources
-                        .borrow_mut()
-                        .insert(resource_path.clone(), data);
-                }
+            let stream = match streams.get(&resource_path) {
+                Some(stream) => stream.borrow(),
                 None => {
                     return Err(io::Error::new(
                         io::ErrorKind::NotFound,
                         String::from(resource_path.to_str().unwrap_or(resource_name)),
                     ));
                 }
+            };
+            let mut resources = self.storage.resources.borrow_mut();
+            let is_up_to_date = resources
+                .get(&resource_path)
+                .map_or(false, |data| **data == *stream.get_ref());
+            if !is_up_to_date {
+                // Resource is not yet opened, or it was written to since then
+                // => copy the stream as resource data.
+                let data = Rc::new(stream.get_ref().clone());
+                if let Some(outdated) = resources.insert(resource_path.clone(), data) {
+                    self.storage.outdated_resources.borrow_mut().push(outdated);
+                }
             }
         }
         let data = &self.storage.resources.borrow()[&resource_path];
-- 
2.43.0


From a90adf037d643f8919cd4b1eb1e90124e1bab1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 08/15] fix: show what was written after an early read in a
 file storage

The mapping created when a file was read the first time was used forever, even
if the file was still being written at that time: reading it again and closing
its writer failed. If the file got shorter, accessing the mapping crashed.
---
 src/filestorage.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 971cc93..9dd9d9f 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -14,14 +14,26 @@ use std::slice;
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
     maps: RefCell<BTreeMap<String, Mmap>>,
+    // Mappings of files that changed their size afterwards. They might still be referenced.
+    outdated_maps: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.borrow().contains_key(path) {
+        // A mapping does not follow the size of the file, e.g. when the file was read
+        // before it was completely written.
+        let size = fs::metadata(path)?.len();
+        let is_up_to_date = self
+            .maps
+            .borrow()
+            .get(path)
+            .map_or(false, |map| map.len() as u64 == size);
+        if !is_up_to_date {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.borrow_mut().insert(path.into(), file_mmap);
+            if let Some(outdated) = self.maps.borrow_mut().insert(path.into(), file_mmap) {
+                self.outdated_maps.borrow_mut().push(outdated);
+            }
         }
         let data = &self.maps.borrow()[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
-- 
2.43.0


From d739a43fd1e2b8cf3d443a37c5459f7f4afcfca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 09/15] fix: read empty files as empty resources

Mapping an empty file fails, so opening an archive with an emptied schema or
resource file, or with an empty schema, failed with an unrelated IO error about
invalid input.
---
 src/filestorage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 9dd9d9f..edad143 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -23,6 +23,10 @@ impl MemoryMappedFileStorage {
         // A mapping does not follow the size of the file, e.g. when the file was read
         // before it was completely written.
         let size = fs::metadata(path)?.len();
+        if size == 0 {
+            // An empty file cannot be mapped
+            return Ok(&[]);
+        }
         let is_up_to_date = self
             .maps
             .borrow()
-- 
2.43.0


From d4ae147dbe4c8ebd970f3d421327307103657125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 10/15] fix: do not create an archive over one that could not
 be looked up

Any failure to look up the signature of an archive was taken for its absence, so
creating an archive could overwrite the signature of an existing one.
---
 src/filestorage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index edad143..15b508b 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -73,7 +73,11 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-        self.path.join(resource_name).exists()
+        // If we cannot find out, then there might be something
+        match fs::metadata(self.path.join(resource_name)) {
+            Ok(_) => true,
+            Err(e) => e.kind() != io::ErrorKind::NotFound,
+        }
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
-- 
2.43.0


From 5fe97fa158120e4abdd0dc605b82835f0bfe7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 11/15] fix: create the directories of slash-separated resource
 names

Only the directory of the storage itself was created, so creating a resource
with a slash-separated name failed on disk, but worked in memory.
---
 src/filestorage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 15b508b..fd4eb5c 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -99,10 +99,12 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-        if !self.path.exists() {
-            fs::create_dir_all(self.path.clone())?;
-        }
         let resource_path = self.path.join(resource_name);
+        if let Some(dir) = resource_path.parent() {
+            if !dir.exists() {
+                fs::create_dir_all(dir)?;
+            }
+        }
         let file = File::create(resource_path)?;
         Ok(Rc::new(RefCell::new(file)))
     }
-- 
2.43.0


From f5620c7715382a8996fdc62a9a77c41c08abc404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 12/15] fix: refuse multivector data that is too large for its
 index

Offsets that do not fit into the index were cut off silently, such that a
multivector finished successfully and then returned wrong items or panicked.
---
 src/multivector.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index 663c19a..d2021f3 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -1,4 +1,4 @@
-use crate::archive::{IndexStruct, VariadicRef, VariadicStruct};
+use crate::archive::{IndexStruct, Struct, VariadicRef, VariadicStruct};
 use crate::error::ResourceStorageError;
 use crate::memory;
 use crate::multiarrayview::MultiArrayView;
@@ -133,6 +133,7 @@ pub struct MultiVector<'a, Idx, Ts> {
     data: Vec<u8>,
     data_handle: ResourceHandle<'a>,
     size_flushed: usize,
+    max_index: usize,
     _phantom: marker::PhantomData<Ts>,
 }
 
@@ -148,6 +149,7 @@ where
             data: vec![0; memory::PADDING_SIZE],
             data_handle,
             size_flushed: 0,
+            max_index: Self::max_index(),
             _phantom: marker::PhantomData,
         }
     }
@@ -184,14 +186,25 @@ where
     }
 
     fn add_to_index(&mut self) -> io::Result<()> {
+        let offset = self.size_flushed + self.data.len() - memory::PADDING_SIZE;
+        if offset > self.max_index {
+            return Err(io::Error::new(
+                io::ErrorKind::Other,
+                "data of multivector is too large for its index",
+            ));
+        }
         let idx_mut = self.index.grow()?;
-        <Idx as IndexStruct>::set_index(
-            idx_mut,
-            self.size_flushed + self.data.len() - memory::PADDING_SIZE,
-        );
+        <Idx as IndexStruct>::set_index(idx_mut, offset);
         Ok(())
     }
 
+    /// Largest value that can be stored in the index.
+    fn max_index() -> usize {
+        let mut data = vec![0; <Idx as Struct>::SIZE_IN_BYTES + memory::PADDING_SIZE];
+        <Idx as IndexStruct>::set_index(Idx::create_mut(&mut data), usize::max_value());
+        <Idx as IndexStruct>::index(Idx::create(&data))
+    }
+
     /// Flushes the remaining not yet flushed elements in this multivector and
     /// finalizes the data inside the storage.
     ///
-- 
2.43.0


From 1083ea6350efd89e2f93169e56845ebaf82a1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 13/15] fix: notice that a resource file was replaced by
 another one of the same size

The mapping of a resource was reused whenever the size of the file was still the
same, so an archive that was removed and built again, or replaced by renaming
another directory into its place, showed the content of the removed one.
---
 src/filestorage.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index fd4eb5c..c7695f4 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -10,19 +10,41 @@ use std::path::PathBuf;
 use std::rc::Rc;
 use std::slice;
 
+/// Identifies a file independently of its name.
+#[cfg(unix)]
+fn file_id(metadata: &fs::Metadata) -> (u64, u64) {
+    use std::os::unix::fs::MetadataExt;
+    (metadata.dev(), metadata.ino())
+}
+
+/// Other systems do not replace a file while it is mapped.
+#[cfg(not(unix))]
+fn file_id(_metadata: &fs::Metadata) -> (u64, u64) {
+    (0, 0)
+}
+
+#[derive(Debug)]
+struct FileMap {
+    map: Mmap,
+    id: (u64, u64),
+}
+
 /// Internal storage of data as files.
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
-    maps: RefCell<BTreeMap<String, Mmap>>,
-    // Mappings of files that changed their size afterwards. They might still be referenced.
-    outdated_maps: RefCell<Vec<Mmap>>,
+    maps: RefCell<BTreeMap<String, FileMap>>,
+    // Mappings of files that were resized or replaced afterwards. They might still be referenced.
+    outdated_maps: RefCell<Vec<FileMap>>,
 }
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
         // A mapping does not follow the size of the file, e.g. when the file was read
-        // before it was completely written.
-        let size = fs::metadata(path)?.len();
+        // before it was completely written. Neither does it follow the name of the file, e.g.
+        // when the archive was removed and built again.
+        let metadata = fs::metadata(path)?;
+        let size = metadata.len();
+        let id = file_id(&metadata);
         if size == 0 {
             // An empty file cannot be mapped
             return Ok(&[]);
@@ -31,15 +53,16 @@ impl MemoryMappedFileStorage {
             .maps
             .borrow()
             .get(path)
-            .map_or(false, |map| map.len() as u64 == size);
+            .map_or(false, |file| file.map.len() as u64 == size && file.id == id);
         if !is_up_to_date {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            if let Some(outdated) = self.maps.borrow_mut().insert(path.into(), file_mmap) {
+            let file_map = FileMap { map: file_mmap, id };
+            if let Some(outdated) = self.maps.borrow_mut().insert(path.into(), file_map) {
                 self.outdated_maps.borrow_mut().push(outdated);
             }
         }
-        let data = &self.maps.borrow()[path];
+        let data = &self.maps.borrow()[path].map;
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From 6598d0de8225ec20e7c7d13018322a847be93245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 14/15] fix: refuse a struct resource that does not have the
 size of its struct

Fields are accessed without checking bounds, so a resource that was shorter than
its struct was opened, and reading its fields went beyond the stored data.
---
 src/archive.rs | 9 ++++++++-
 src/storage.rs | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index de87727..142c5af 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -602,7 +602,14 @@ macro_rules! define_archive {
                             &*storage,
                             stringify!($struct_resource),
                             $struct_schema
-                        ), $is_optional_struct);
+                        ).and_then(|mem_desc: $crate::MemoryDescriptor| {
+                            // a struct is accessed without checking bounds
+                            if mem_desc.size_in_bytes() == <$struct_type as $crate::Struct>::SIZE_IN_BYTES {
+                                Ok(mem_desc)
+                            } else {
+                                Err($crate::ResourceStorageError::UnexpectedDataSize)
+                            }
+                        }), $is_optional_struct);
                     )*
 
                     $($vector_resource = check_resource!(
diff --git a/src/storage.rs b/src/storage.rs
index 48929fe..fe1e378 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -254,6 +254,11 @@ impl MemoryDescriptor {
         }
     }
 
+    /// Size of the described memory in bytes.
+    pub fn size_in_bytes(&self) -> usize {
+        self.size
+    }
+
     /// Converts back to bytes (lifetime corresponds to the descriptor's)
     /// Inherently unsafe, since there is no guarantee that the original buffer
     /// is still alive
-- 
2.43.0


From 9afb0ab7f9e2b0c0bf5f19a6e7fdb4e560245d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:51 +0000
Subject: [PATCH 15/15] fix: read resources of a storage whose path is not
 UTF-8

Such an archive could be written, but every attempt to open it failed, since
the mappings were stored by a path converted to a string.
---
 src/filestorage.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index c7695f4..6d6ec37 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use std::collections::BTreeMap;
 use std::fs::{self, File};
 use std::io;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::slice;
 
@@ -32,13 +32,13 @@ struct FileMap {
 /// Internal storage of data as files.
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
-    maps: RefCell<BTreeMap<String, FileMap>>,
+    maps: RefCell<BTreeMap<PathBuf, FileMap>>,
     // Mappings of files that were resized or replaced afterwards. They might still be referenced.
     outdated_maps: RefCell<Vec<FileMap>>,
 }
 
 impl MemoryMappedFileStorage {
-    pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
+    pub fn read(&self, path: &Path) -> Result<&[u8], io::Error> {
         // A mapping does not follow the size of the file, e.g. when the file was read
         // before it was completely written. Neither does it follow the name of the file, e.g.
         // when the archive was removed and built again.
@@ -112,13 +112,7 @@ impl ResourceStorage for FileResourceStorage {
             ));
         }
 
-        match resource_path.to_str() {
-            Some(p) => self.storage.read(p),
-            None => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                String::from(resource_path.to_str().unwrap_or(resource_name)),
-            )),
-        }
+        self.storage.read(&resource_path)
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-- 
2.43.0

