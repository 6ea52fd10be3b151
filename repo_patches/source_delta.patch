From 91242b22e563a2408a71949265a5c31ba596caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:50 +0000
Subject: [PATCH 001/107] fix: return NULL from as_arraylist_head() on an empty
 list

An empty list may have no element storage at all, or storage that still
holds stale pointers.
---
 src/main/aerospike/as_arraylist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 230bdfd..57675f0 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -424,7 +424,7 @@ as_arraylist_trim(as_arraylist* list, uint32_t index)
 as_val*
 as_arraylist_head(const as_arraylist* list)
 {
-	return list->elements[0];
+	return list->size > 0 ? list->elements[0] : NULL;
 }
 
 as_arraylist*
-- 
2.43.0


From 2baeba7c1d64d02ba7ec163c14bc002be9a76347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:50 +0000
Subject: [PATCH 002/107] fix: make as_arraylist_tail() return the elements
 after the first

The new list copied from itself, kept size zero and leaked the references
taken on the original elements.
---
 src/main/aerospike/as_arraylist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 57675f0..3b7d1d2 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -434,10 +434,11 @@ as_arraylist_tail(const as_arraylist* list)
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
 
+	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
 		if (list->elements[i]) {
 			as_val_reserve(list->elements[i]);
-			list2->elements[j] = list2->elements[i];
+			list2->elements[j] = list->elements[i];
 		}
 		else {
 			list2->elements[j] = 0;
-- 
2.43.0


From d9cc9ad0b37bbdc6007986561a45731f4c84f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:50 +0000
Subject: [PATCH 003/107] fix: stop as_arraylist_concat() from running off the
 end when a list is appended to itself

---
 src/main/aerospike/as_arraylist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 3b7d1d2..a8cd05e 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -385,13 +385,15 @@ as_arraylist_remove(as_arraylist* list, uint32_t index)
 int
 as_arraylist_concat(as_arraylist* list, const as_arraylist* list2)
 {
-	int rc = as_arraylist_ensure(list, list2->size);
+	// The lists may be the same, so fix the number of elements to append now.
+	uint32_t count = list2->size;
+	int rc = as_arraylist_ensure(list, count);
 
 	if (rc != AS_ARRAYLIST_OK) {
 		return rc;
 	}
 
-	for (uint32_t i = 0; i < list2->size; i++) {
+	for (uint32_t i = 0; i < count; i++) {
 		if (list2->elements[i]) {
 			as_val_reserve(list2->elements[i]);
 		}
-- 
2.43.0


From 0716bea874e2b9379d5966009452aeedf5f373bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:50 +0000
Subject: [PATCH 004/107] fix: compute array list growth in 64 bits

A set or insert at an index close to 2^32 wrapped the required capacity
and then wrote outside the element storage.
---
 src/main/aerospike/as_arraylist.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index a8cd05e..bf44390 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -106,22 +106,27 @@ as_arraylist_destroy(as_arraylist* l)
  ******************************************************************************/
 
 static int
-as_arraylist_ensure(as_arraylist* list, uint32_t delta)
+as_arraylist_ensure(as_arraylist* list, uint64_t delta)
 {
 	// Check for capacity (in terms of elements, NOT size in bytes), and if we
 	// need to allocate more, do a realloc.
-	if ((list->size + delta) > list->capacity) {
+	uint64_t needed = list->size + delta;
+
+	if (needed > list->capacity) {
 		// by convention - we allocate more space ONLY when the unit of
 		// (new) allocation is > 0.
 		if (list->block_size == 0) {
 			return AS_ARRAYLIST_ERR_MAX;
 		}
 		// Compute how much room we're missing for the new stuff
-		int new_room = (list->size + delta) - list->capacity;
+		uint64_t new_room = needed - list->capacity;
 		// Compute new capacity in terms of multiples of block_size
 		// This will get us (conservatively) at least one block
-		int new_blocks = (new_room + list->block_size) / list->block_size;
-		int new_capacity = list->capacity + (new_blocks * list->block_size);
+		uint64_t new_blocks = (new_room + list->block_size) / list->block_size;
+		uint64_t new_capacity = list->capacity + (new_blocks * list->block_size);
+		if (new_capacity > UINT32_MAX) {
+			return AS_ARRAYLIST_ERR_ALLOC;
+		}
 		size_t new_bytes = sizeof(as_val*) * new_capacity;
 		as_val** elements = (as_val**) cf_realloc(list->elements, new_bytes);
 		if (! elements) {
@@ -132,7 +137,7 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 		memset((uint8_t *)elements + old_bytes, 0, new_bytes - old_bytes);
 		// Set the new array pointer and capacity.
 		list->elements = elements;
-		list->capacity = new_capacity;
+		list->capacity = (uint32_t)new_capacity;
 		list->free = true;
 	}
 
@@ -193,7 +198,7 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 	int rc = AS_ARRAYLIST_OK;
 
 	if (index >= list->capacity) {
-		rc = as_arraylist_ensure(list, (index + 1) - list->size);
+		rc = as_arraylist_ensure(list, ((uint64_t)index + 1) - list->size);
 
 		if (rc != AS_ARRAYLIST_OK) {
 			return rc;
@@ -247,10 +252,10 @@ as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 int
 as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 {
-	uint32_t delta = 1;
+	uint64_t delta = 1;
 
 	if (index > list->size) {
-		delta = index + 1 - list->size;
+		delta = (uint64_t)index + 1 - list->size;
 	}
 
 	int rc = as_arraylist_ensure(list, delta);
-- 
2.43.0


From de5c26f6dc1aa00c6ca4df2aa41def7feeeff265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:06 +0000
Subject: [PATCH 005/107] fix: do not leak the value when a typed array list
 put fails

---
 src/main/aerospike/as_arraylist.c | 48 +++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index bf44390..3455fe1 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -144,6 +144,18 @@ as_arraylist_ensure(as_arraylist* list, uint64_t delta)
 	return AS_ARRAYLIST_OK;
 }
 
+/**
+ *	Destroy a value created for an operation that did not store it.
+ */
+static int
+as_arraylist_release_on_error(int rc, as_val* value)
+{
+	if (rc != AS_ARRAYLIST_OK) {
+		as_val_destroy(value);
+	}
+	return rc;
+}
+
 /*******************************************************************************
  * INFO FUNCTIONS
  ******************************************************************************/
@@ -230,19 +242,22 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 int
 as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+	return as_arraylist_release_on_error(as_arraylist_set(list, index, val), val);
 }
 
 int
 as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+	return as_arraylist_release_on_error(as_arraylist_set(list, index, val), val);
 }
 
 int
 as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_release_on_error(as_arraylist_set(list, index, val), val);
 }
 
 /*******************************************************************************
@@ -287,19 +302,22 @@ as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 int
 as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+	return as_arraylist_release_on_error(as_arraylist_insert(list, index, val), val);
 }
 
 int
 as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+	return as_arraylist_release_on_error(as_arraylist_insert(list, index, val), val);
 }
 
 int
 as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_release_on_error(as_arraylist_insert(list, index, val), val);
 }
 
 /*******************************************************************************
@@ -315,19 +333,22 @@ as_arraylist_append(as_arraylist* list, as_val* value)
 int
 as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_append(list, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+	return as_arraylist_release_on_error(as_arraylist_append(list, val), val);
 }
 
 int
 as_arraylist_append_double(as_arraylist* list, double value)
 {
-	return as_arraylist_append(list, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+	return as_arraylist_release_on_error(as_arraylist_append(list, val), val);
 }
 
 int
 as_arraylist_append_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_append(list, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_release_on_error(as_arraylist_append(list, val), val);
 }
 
 /*******************************************************************************
@@ -343,19 +364,22 @@ as_arraylist_prepend(as_arraylist* list, as_val* value)
 int
 as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+	return as_arraylist_release_on_error(as_arraylist_prepend(list, val), val);
 }
 
 int
 as_arraylist_prepend_double(as_arraylist* list, double value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+	return as_arraylist_release_on_error(as_arraylist_prepend(list, val), val);
 }
 
 int
 as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+	return as_arraylist_release_on_error(as_arraylist_prepend(list, val), val);
 }
 
 /*******************************************************************************
-- 
2.43.0


From 65117f426b710156aee81add50e5808a04e866cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:12 +0000
Subject: [PATCH 006/107] fix: count references to booleans that are not
 constants

Reserving a heap boolean did nothing, so sharing one between two owners
freed it twice.
---
 src/main/aerospike/as_val.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_val.c b/src/main/aerospike/as_val.c
index 87a91ef..be80c3f 100644
--- a/src/main/aerospike/as_val.c
+++ b/src/main/aerospike/as_val.c
@@ -48,6 +48,7 @@ static uint32_t as_val_hashcode_noop(const as_val *);
 static char *   as_val_tostring_noop(const as_val *);
 static as_val * as_val_reserve_noop(as_val * v);
 static as_val * as_val_reserve_count(as_val * v);
+static as_val * as_val_reserve_boolean(as_val * v);
 
 /******************************************************************************
  *	VARIABLES
@@ -107,7 +108,7 @@ static const as_val_hashcode_callback as_val_hashcode_callbacks[] = {
 static const as_val_reserve_callback as_val_reserve_callbacks[] = {
 	[AS_UNKNOWN]	= as_val_reserve_noop,
 	[AS_NIL]		= as_val_reserve_noop,
-	[AS_BOOLEAN]	= as_val_reserve_noop,
+	[AS_BOOLEAN]	= as_val_reserve_boolean,
 	[AS_INTEGER]	= as_val_reserve_count,
 	[AS_STRING]		= as_val_reserve_count,
 	[AS_BYTES]		= as_val_reserve_count,
@@ -142,6 +143,15 @@ static as_val * as_val_reserve_count(as_val * v)
 	return v;
 }
 
+static as_val * as_val_reserve_boolean(as_val * v)
+{
+	// The as_true and as_false constants are not ref-counted.
+	if (v->count != 0) {
+		as_incr_uint32(&v->count);
+	}
+	return v;
+}
+
 static uint32_t as_val_hashcode_noop(const as_val * v)
 { 
 	return 0;
-- 
2.43.0


From 7e20334a5ee77405148f5b6a6206ddbfd3c96fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:06 +0000
Subject: [PATCH 007/107] fix: keep as_pack_str() and as_pack_bytes() inside
 the caller's buffer

The item-level pack functions report an error when the supplied buffer is
too small. The string and byte array headers grew the packer instead, which
silently replaced the caller's buffer with an allocated one.
---
 src/main/aerospike/as_msgpack.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b4e6fbf..a1af44b 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -476,35 +476,35 @@ pack_as_double(as_packer *pk, const as_double *d)
 }
 
 static int
-pack_string_header(as_packer *pk, uint32_t size)
+pack_string_header(as_packer *pk, uint32_t size, bool resize)
 {
 	if (size < 32) {
-		return pack_byte(pk, (uint8_t)(0xa0 | size), true);
+		return pack_byte(pk, (uint8_t)(0xa0 | size), resize);
 	}
 
 	if (size < 256) {
-		return pack_type_uint8(pk, 0xd9, (uint8_t)size, true);
+		return pack_type_uint8(pk, 0xd9, (uint8_t)size, resize);
 	}
 
 	if (size < 65536) {
-		return pack_type_uint16(pk, 0xda, (uint16_t)size, true);
+		return pack_type_uint16(pk, 0xda, (uint16_t)size, resize);
 	}
 
-	return pack_type_uint32(pk, 0xdb, size, true);
+	return pack_type_uint32(pk, 0xdb, size, resize);
 }
 
 static inline int
-pack_byte_array_header(as_packer *pk, uint32_t size)
+pack_byte_array_header(as_packer *pk, uint32_t size, bool resize)
 {
 	// Use string header codes for byte arrays.
-	return pack_string_header(pk, size);
+	return pack_string_header(pk, size, resize);
 }
 
 static int
 pack_string(as_packer *pk, as_string *s)
 {
 	uint32_t length = (uint32_t)as_string_len(s);
-	int rc = pack_string_header(pk, length + 1);
+	int rc = pack_string_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_STRING, true);
@@ -521,7 +521,7 @@ static int
 pack_geojson(as_packer *pk, as_geojson *s)
 {
 	uint32_t length = (uint32_t)as_geojson_len(s);
-	int rc = pack_byte_array_header(pk, length + 1);
+	int rc = pack_byte_array_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_GEOJSON, true);
@@ -537,7 +537,7 @@ pack_geojson(as_packer *pk, as_geojson *s)
 static int
 pack_bytes(as_packer *pk, const as_bytes *b)
 {
-	int rc = pack_byte_array_header(pk, b->size + 1);
+	int rc = pack_byte_array_header(pk, b->size + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, b->type, true);
@@ -1354,10 +1354,10 @@ as_pack_double(as_packer *pk, double val)
 int
 as_pack_bytes(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_byte_array_header(pk, sz + 1);
+	int rc = pack_byte_array_header(pk, sz + 1, false);
 
 	if (rc == 0) {
-		rc = pack_byte(pk, AS_BYTES_BLOB, true);
+		rc = pack_byte(pk, AS_BYTES_BLOB, false);
 	}
 
 	if (rc == 0) {
@@ -1393,7 +1393,7 @@ as_pack_bin_size(uint32_t buf_sz)
 int
 as_pack_str(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_string_header(pk, sz);
+	int rc = pack_string_header(pk, sz, false);
 
 	if (rc == 0 && buf) {
 		return pack_append(pk, buf, sz, false);
-- 
2.43.0


From 8fe621e214f03785286b2ee9b4c08fd7dfd7d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:17 +0000
Subject: [PATCH 008/107] fix: do not let a huge length wrap the pack buffer
 check

The sum of the packer's position and the length was computed in 32 bits, so
a length close to 4 GB passed the capacity check and was copied.
---
 src/main/aerospike/as_msgpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index a1af44b..7d28a7c 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -302,7 +302,7 @@ static inline int
 pack_append(as_packer *pk, const unsigned char *src, uint32_t sz, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + sz > pk->capacity) {
+		if ((uint64_t)pk->offset + sz > pk->capacity) {
 			if (! resize || pack_resize(pk, sz) != 0) {
 				return -1;
 			}
-- 
2.43.0


From 0b0d082b59a256cc349f2e79bfc904989ca578fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:50 +0000
Subject: [PATCH 009/107] fix: do not read past the input in
 as_unpack_boolean() and as_unpack_nil()

---
 src/main/aerospike/as_msgpack.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 7d28a7c..09bc5b3 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2015,6 +2015,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 int
 as_unpack_boolean(as_unpacker *pk, bool *value)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	if (type == 0xc3 || type == 0xc2) {
@@ -2028,6 +2032,10 @@ as_unpack_boolean(as_unpacker *pk, bool *value)
 int
 as_unpack_nil(as_unpacker *pk)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	return type == 0xc0 ? 0 : -1;
-- 
2.43.0


From 5da2aa5ae3a123d7638efdeaa0b126708372f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:50 +0000
Subject: [PATCH 010/107] fix: keep as_unpack_peek_type() inside the input

The type byte of strings, blobs and fixext 1 items was read without checking
that it is part of the input, and an empty blob took the first byte of the
next item for its type.
---
 src/main/aerospike/as_msgpack.c | 42 ++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 09bc5b3..a189d00 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1664,6 +1664,23 @@ bytes_internal_type_to_as_val_t(uint8_t type)
 	return AS_BYTES;
 }
 
+static as_val_t
+unpack_peek_blob_type(const as_unpacker *pk)
+{
+	as_unpacker blob = *pk;
+	int64_t size = as_unpack_blob_size(&blob);
+
+	if (size == 0) {
+		return AS_BYTES; // no type byte
+	}
+
+	if (size < 0 || blob.offset >= blob.length) {
+		return AS_UNDEF;
+	}
+
+	return bytes_internal_type_to_as_val_t(blob.buffer[blob.offset]);
+}
+
 as_val_t
 as_unpack_peek_type(const as_unpacker *pk)
 {
@@ -1696,22 +1713,12 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_DOUBLE;
 
 	case 0xc4:
-	case 0xd9: { // string/raw bytes with 8 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 2];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
-
+	case 0xd9: // string/raw bytes with 8 bit header
 	case 0xc5:
-	case 0xda: { // string/raw bytes with 16 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 3];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
-
+	case 0xda: // string/raw bytes with 16 bit header
 	case 0xc6:
-	case 0xdb: { // string/raw bytes with 32 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 5];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xdb: // string/raw bytes with 32 bit header
+		return unpack_peek_blob_type(pk);
 
 	case 0xdc: // list with 16 bit header
 	case 0xdd: // list with 32 bit header
@@ -1722,6 +1729,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_MAP;
 
 	case 0xd4: { // fixext1
+		if (pk->length - pk->offset < 3) {
+			return AS_UNDEF;
+		}
+
 		uint8_t ext_type = pk->buffer[pk->offset + 1];
 
 		if (ext_type == ASVAL_CMP_EXT_TYPE) {
@@ -1748,8 +1759,7 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_CMP_EXT;
 	default:
 		if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-			uint8_t type1 = pk->buffer[pk->offset + 1];
-			return bytes_internal_type_to_as_val_t(type1);
+			return unpack_peek_blob_type(pk);
 		}
 
 		if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
-- 
2.43.0


From 1017c094161c16fcfbf90a22c90b29b2c710c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:50 +0000
Subject: [PATCH 011/107] fix: reject string and extension lengths that
 overflow the position

A length close to 4 GB wrapped the 32 bit sums used in the bounds checks of
as_unpack_str(), as_unpack_bin() and as_unpack_ext().
---
 src/main/aerospike/as_msgpack.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index a189d00..d068156 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2251,14 +2251,14 @@ unpack_str_bin(as_unpacker *pk, uint32_t *sz_r)
 		return NULL;
 	}
 
+	if (*sz_r > pk->length - pk->offset) {
+		return NULL;
+	}
+
 	const uint8_t *buf = &pk->buffer[pk->offset];
 
 	pk->offset += *sz_r;
 
-	if (pk->offset > pk->length) {
-		return NULL;
-	}
-
 	return buf;
 }
 
@@ -2317,7 +2317,7 @@ as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 		return -3;
 	}
 
-	if (pk->length - pk->offset < 1 + ext->size) {
+	if (pk->length - pk->offset <= ext->size) {
 		return -4;
 	}
 
-- 
2.43.0


From 81603ddaf63d1e1768c29fb779042e45eadb9ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:50 +0000
Subject: [PATCH 012/107] fix: do not size items which extend past the input

as_unpack_size() added lengths found in the input to its position without
comparing them with the length of the input, and read headers that were cut
off. Callers then continued from a position outside of the buffer.
---
 src/main/aerospike/as_msgpack.c | 102 +++++++++++++++++++++++++++-----
 1 file changed, 87 insertions(+), 15 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index d068156..dd55c44 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1861,6 +1861,79 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 	return -6;
 }
 
+/**
+ * Number of bytes after the type byte which every item of this type has.
+ */
+static inline uint32_t
+unpack_fixed_size(uint8_t type)
+{
+	switch (type) {
+	case 0xcc: // unsigned 8 bit integer
+	case 0xd0: // signed 8 bit integer
+	case 0xc4:
+	case 0xd9: // string/raw bytes with 8 bit header
+		return 1;
+
+	case 0xcd: // unsigned 16 bit integer
+	case 0xd1: // signed 16 bit integer
+	case 0xc5:
+	case 0xda: // string/raw bytes with 16 bit header
+	case 0xdc: // list with 16 bit header
+	case 0xde: // map with 16 bit header
+		return 2;
+
+	case 0xca: // float
+	case 0xce: // unsigned 32 bit integer
+	case 0xd2: // signed 32 bit integer
+	case 0xc6:
+	case 0xdb: // string/raw bytes with 32 bit header
+	case 0xdd: // list with 32 bit header
+	case 0xdf: // map with 32 bit header
+		return 4;
+
+	case 0xcb: // double
+	case 0xcf: // unsigned 64 bit integer
+	case 0xd3: // signed 64 bit integer
+		return 8;
+
+	case 0xd4: // fixext 1
+		return 1 + 1;
+	case 0xd5: // fixext 2
+		return 1 + 2;
+	case 0xd6: // fixext 4
+		return 1 + 4;
+	case 0xd7: // fixext 8
+		return 1 + 8;
+	case 0xd8: // fixext 16
+		return 1 + 16;
+	case 0xc7: // ext 8
+		return 1 + 1;
+	case 0xc8: // ext 16
+		return 2 + 1;
+	case 0xc9: // ext 32
+		return 4 + 1;
+
+	default:
+		return 0;
+	}
+}
+
+/**
+ * Skip the contents of an item with a header of hdr_size bytes.
+ * @return size of the item, -1 if it does not fit in the input
+ */
+static inline int64_t
+unpack_skip_contents(as_unpacker *pk, uint32_t hdr_size, uint32_t size)
+{
+	if (size > pk->length - pk->offset) {
+		return -1;
+	}
+
+	pk->offset += size;
+
+	return (int64_t)hdr_size + size;
+}
+
 static inline int64_t
 unpack_size_internal(as_unpacker *pk, uint32_t depth)
 {
@@ -1870,6 +1943,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (pk->length - pk->offset < unpack_fixed_size(type)) {
+		return -1;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 	case 0xc3: // boolean true
@@ -1901,22 +1978,19 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += length;
-		return 1 + 1 + length;
+		return unpack_skip_contents(pk, 1 + 1, length);
 	}
 
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
 		uint16_t length = extract_uint16(pk);
-		pk->offset += length;
-		return 1 + 2 + length;
+		return unpack_skip_contents(pk, 1 + 2, length);
 	}
 
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
 		uint32_t length = extract_uint32(pk);
-		pk->offset += length;
-		return 1 + 4 + length;
+		return unpack_skip_contents(pk, 1 + 4, length);
 	}
 
 	case 0xdc: { // list with 16 bit header
@@ -1972,27 +2046,25 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 		return 1 + 1 + 16;
 	case 0xc7: { // ext 8
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += 1 + length;
-		return 1 + 1 + 1 + length;
+		pk->offset++;
+		return unpack_skip_contents(pk, 1 + 1 + 1, length);
 	}
 	case 0xc8: { // ext 16
 		uint16_t length = extract_uint16(pk);
-		pk->offset += 1 + length;
-		return 1 + 2 + 1 + length;
+		pk->offset++;
+		return unpack_skip_contents(pk, 1 + 2 + 1, length);
 	}
 	case 0xc9: { // ext 32
 		uint32_t length = extract_uint32(pk);
-		pk->offset += 1 + length;
-		return 1 + 4 + 1 + length;
+		pk->offset++;
+		return unpack_skip_contents(pk, 1 + 4 + 1, length);
 	}
 	default:
 		break;
 	}
 
 	if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-		int length = type & 0x1f;
-		pk->offset += length;
-		return 1 + length;
+		return unpack_skip_contents(pk, 1, type & 0x1f);
 	}
 
 	if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
-- 
2.43.0


From 3960a7c9ecec3c02ead2b94469252b9740eda649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:13 +0000
Subject: [PATCH 013/107] fix: keep as_unpack_val() inside the input

Decoding a truncated item read past the end of the input: type bytes,
numbers, string and blob contents and extensions were not checked against
its length.
---
 src/main/aerospike/as_msgpack.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index dd55c44..3705d92 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -108,6 +108,7 @@ static int64_t unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, ui
 static int64_t unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static inline as_val_t bytes_internal_type_to_as_val_t(uint8_t type);
 static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block, msgpack_parse_state *state);
+static inline uint32_t unpack_fixed_size(uint8_t type);
 static inline int64_t unpack_size_internal(as_unpacker *pk, uint32_t depth);
 static inline const uint8_t *unpack_str_bin(as_unpacker *pk, uint32_t *sz_r);
 
@@ -942,6 +943,10 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	unsigned char type = 0;
 
+	if (size > pk->length - pk->offset) {
+		return -1;
+	}
+
 	if (size != 0) {
 		type = pk->buffer[pk->offset++];
 		size--;
@@ -1142,13 +1147,20 @@ int
 as_unpack_val(as_unpacker *pk, as_val **val)
 {
 	if (as_unpack_peek_is_ext(pk)) {
-		as_unpack_size(pk);
 		*val = NULL;
-		return 0;
+		return as_unpack_size(pk) < 0 ? -1 : 0;
+	}
+
+	if (pk->offset >= pk->length) {
+		return -1;
 	}
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (pk->length - pk->offset < unpack_fixed_size(type)) {
+		return -1;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 		return unpack_nil(val);
-- 
2.43.0


From 03499aa40c0509b2af4e51e1643b409c1f4f9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:13 +0000
Subject: [PATCH 014/107] fix: do not allocate for more elements than the input
 can hold

The element count of a list or map was used to size an allocation before
looking at the elements, so a few bytes of input could request gigabytes.
---
 src/main/aerospike/as_msgpack.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 3705d92..049e130 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1016,6 +1016,11 @@ unpack_list(as_unpacker *pk, uint32_t size, as_val **val)
 		size--;
 	}
 
+	// Every element takes at least one byte.
+	if (size > pk->length - pk->offset) {
+		return -1;
+	}
+
 	as_arraylist *list = as_arraylist_new(size, 8);
 
 	if (! list) {
@@ -1135,6 +1140,11 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 		ele_count--;
 	}
 
+	// Every key and every value takes at least one byte.
+	if (ele_count > (pk->length - pk->offset) / 2) {
+		return -1;
+	}
+
 	// Check preserve order bit.
 	if ((flags & AS_PACKED_MAP_FLAG_PRESERVE_ORDER) != 0) {
 		return unpack_map_create_list(pk, ele_count, val);
-- 
2.43.0


From f316b22540047447aa9c92993de1d46ec98a4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:13 +0000
Subject: [PATCH 015/107] fix: report an error when comparing a truncated
 string or blob

A negative length was not noticed and a length past the end was cut to the
rest of the input, so malformed items compared as if they were complete.
---
 src/main/aerospike/as_msgpack.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 049e130..6456e8d 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2578,7 +2578,7 @@ msgpack_get_blob_len(as_unpacker *pk)
 {
 	int64_t len = as_unpack_blob_size(pk);
 
-	if (len == 0) {
+	if (len <= 0 || len > (int64_t)(pk->length - pk->offset)) {
 		return -1;
 	}
 
@@ -2586,12 +2586,6 @@ msgpack_get_blob_len(as_unpacker *pk)
 	len--;
 	pk->offset++;
 
-	int64_t left = pk->length - pk->offset;
-
-	if (len > left) {
-		return left;
-	}
-
 	return len;
 }
 
-- 
2.43.0


From f933a437e4ccadda0f9f1cc78c76fd00feb2f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:13 +0000
Subject: [PATCH 016/107] fix: free the parse state when sizing deeply nested
 malformed input

The blocks were passed by value, so blocks added while sizing an item nested
more than 512 levels deep were lost when the item turned out malformed.
---
 src/main/aerospike/as_msgpack.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 6456e8d..7a5c4a6 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -107,7 +107,7 @@ static inline int pack_ext_header_internal(as_packer *pk, uint32_t content_size,
 static int64_t unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static int64_t unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static inline as_val_t bytes_internal_type_to_as_val_t(uint8_t type);
-static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block, msgpack_parse_state *state);
+static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block, msgpack_parse_state *state);
 static inline uint32_t unpack_fixed_size(uint8_t type);
 static inline int64_t unpack_size_internal(as_unpacker *pk, uint32_t depth);
 static inline const uint8_t *unpack_str_bin(as_unpacker *pk, uint32_t *sz_r);
@@ -1605,7 +1605,7 @@ unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		state->len = ele_count;
 		state->type = AS_LIST;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 
 		msgpack_parse_memblock_destroy(block);
 
@@ -1644,7 +1644,7 @@ unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		state->len = ele_count;
 		state->type = AS_MAP;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 		msgpack_parse_memblock_destroy(block);
 
 		return ret;
@@ -1819,18 +1819,18 @@ as_unpack_buf_peek_type(const uint8_t *buf, uint32_t size)
 }
 
 static int64_t
-unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
+unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		msgpack_parse_state *state)
 {
 	int start = pk->offset;
 
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_parse_memblock_has_prev(block)) {
+			if (! msgpack_parse_memblock_has_prev(*block)) {
 				return (int64_t)(pk->offset - start);
 			}
 
-			state = msgpack_parse_memblock_prev(&block);
+			state = msgpack_parse_memblock_prev(block);
 		}
 
 		if (state->type == AS_LIST) {
@@ -1856,7 +1856,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_LIST ) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
 			if (! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
@@ -1866,7 +1866,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_MAP) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
 			if (! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
-- 
2.43.0


From a11ee530493729cef209f9b05f98261889d19903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:02 +0000
Subject: [PATCH 017/107] fix: skip the right number of items when comparing
 packed maps

Maps of different sizes skipped one item per pair instead of two, and maps
with a metadata entry skipped one pair too many after the first difference.
Both left the positions in the wrong place or reported an error.
---
 src/main/aerospike/as_msgpack.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 7a5c4a6..fdaa940 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2802,11 +2802,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 	}
 
 	if (len1 != len2) {
-		if (! msgpack_skip(pk1, len1)) {
+		if (! msgpack_skip(pk1, 2 * len1)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
-		if (! msgpack_skip(pk2, len2)) {
+		if (! msgpack_skip(pk2, 2 * len2)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
@@ -2829,17 +2829,19 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		}
 
 		if (ret != MSGPACK_COMPARE_EQUAL) {
-			if (! msgpack_skip(pk1, len1 - 1)) {
+			if (! msgpack_skip(pk1, 2 * (len1 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_skip(pk2, len2 - 1)) {
+			if (! msgpack_skip(pk2, 2 * (len2 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
 			return ret;
 		}
 
+		len1--;
+		len2--;
 		minlen--;
 	}
 
-- 
2.43.0


From 2eb57216745e06380e377e9a34708872c1344f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:02 +0000
Subject: [PATCH 018/107] fix: bound the recursion when comparing nested packed
 maps

Only lists counted towards the depth at which the comparison switches to an
explicit stack, so nested maps could exhaust the call stack.
---
 src/main/aerospike/as_msgpack.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index fdaa940..2bdcef7 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2793,6 +2793,32 @@ compare_ext(as_unpacker *pk1, as_unpacker *pk2)
 static msgpack_compare_t
 msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 {
+	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
+		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
+
+		if (! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
+			msgpack_parse_memblock_destroy(block);
+			return MSGPACK_COMPARE_ERROR;
+		}
+
+		msgpack_compare_t ret = state->default_compare_type;
+
+		if (ret == MSGPACK_COMPARE_EQUAL) {
+			ret = msgpack_compare_non_recursive(pk1, pk2, &block, state);
+		}
+
+		if (ret == MSGPACK_COMPARE_ERROR ||
+				! msgpack_compare_unwind_all(pk1, pk2, &block)) {
+			msgpack_parse_memblock_destroy(block);
+			return MSGPACK_COMPARE_ERROR;
+		}
+
+		msgpack_parse_memblock_destroy(block);
+
+		return ret;
+	}
+
 	int64_t len1 = as_unpack_map_header_element_count(pk1);
 	int64_t len2 = as_unpack_map_header_element_count(pk2);
 	int64_t minlen = (len1 < len2) ? len1 : len2;
-- 
2.43.0


From 85ef2f39b2c7f6378481b47dda1084ca297ab66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:02 +0000
Subject: [PATCH 019/107] fix: do not skip the rest of a deeply nested list
 twice

The comparison that uses an explicit stack skipped the rest of the outermost
container before returning, and its caller skipped it again. Lists nested
more than 256 levels deep whose lengths differ compared as an error or left
the positions past the item.
---
 src/main/aerospike/as_msgpack.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 2bdcef7..c94f2c2 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2947,12 +2947,12 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 {
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_compare_unwind(pk1, pk2, state)) {
-				return MSGPACK_COMPARE_ERROR;
+			if (! msgpack_parse_memblock_has_prev(*block)) {
+				return state->default_compare_type; // caller unwinds
 			}
 
-			if (! msgpack_parse_memblock_has_prev(*block)) {
-				return state->default_compare_type;
+			if (! msgpack_compare_unwind(pk1, pk2, state)) {
+				return MSGPACK_COMPARE_ERROR;
 			}
 
 			uint32_t len1 = state->len1;
@@ -3022,12 +3022,12 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_compare_unwind(pk1, pk2, state)) {
-				return MSGPACK_COMPARE_ERROR;
+			if (! msgpack_parse_memblock_has_prev(*block)) {
+				return MSGPACK_COMPARE_EQUAL; // caller unwinds
 			}
 
-			if (! msgpack_parse_memblock_has_prev(*block)) {
-				return MSGPACK_COMPARE_EQUAL;
+			if (! msgpack_compare_unwind(pk1, pk2, state)) {
+				return MSGPACK_COMPARE_ERROR;
 			}
 
 			state = msgpack_parse_memblock_prev(block);
-- 
2.43.0


From 4fb8353049180d62b3a088cb34b0af61111d05f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:02 +0000
Subject: [PATCH 020/107] fix: compare extension items wherever they appear

The metadata entry of ordered maps was only handled by the recursive map
comparison. The same map nested more than 256 levels deep compared as an
error.
---
 src/main/aerospike/as_msgpack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index c94f2c2..187ac45 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -3082,6 +3082,8 @@ msgpack_compare_type(as_unpacker *pk1, as_unpacker *pk2, as_val_t type,
 		return msgpack_compare_double(pk1, pk2);
 	case AS_GEOJSON:
 		return msgpack_compare_blob(pk1, pk2);
+	case AS_CMP_EXT:
+		return compare_ext(pk1, pk2);
 	case AS_CMP_WILDCARD:
 	case AS_CMP_INF:
 		pk1->offset += 3;
-- 
2.43.0


From 2cc105fdf0300a67639208198446720726f59e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:02 +0000
Subject: [PATCH 021/107] fix: compare infinity as equal to itself in
 as_val_cmp()

It was reported as an error, unlike in the comparison of packed values.
---
 src/main/aerospike/as_msgpack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 187ac45..de0ba2b 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -717,6 +717,8 @@ as_val_cmp(const as_val* v1, const as_val* v2)
 		return as_list_cmp((as_list*)v1, (as_list*)v2);
 	case AS_MAP:
 		return as_map_cmp((as_map*)v1, (as_map*)v2);
+	case AS_CMP_INF:
+		break;
 	default:
 		return MSGPACK_COMPARE_ERROR;
 	}
-- 
2.43.0


From 0a6f4468340eebc234a005292ddaaadaba1a7c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:02 +0000
Subject: [PATCH 022/107] fix: compare the values of maps in as_val_cmp()

Only the keys were compared, so maps with the same keys and different values
were equal, unlike in the comparison of packed maps.
---
 src/main/aerospike/as_msgpack.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index de0ba2b..6c0c7ab 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -671,6 +671,20 @@ as_map_cmp(const as_map* map1, const as_map* map2)
 		if (cmp != MSGPACK_COMPARE_EQUAL) {
 			return cmp;
 		}
+
+		as_val* v1 = as_pair_2(p1);
+		as_val* v2 = as_pair_2(p2);
+
+		if (as_val_type(v1) == AS_CMP_WILDCARD ||
+				as_val_type(v2) == AS_CMP_WILDCARD) {
+			return MSGPACK_COMPARE_EQUAL;
+		}
+
+		cmp = as_val_cmp(v1, v2);
+
+		if (cmp != MSGPACK_COMPARE_EQUAL) {
+			return cmp;
+		}
 	}
 
 	return MSGPACK_COMPARE_EQUAL;
-- 
2.43.0


From 3651d6e932684b35cb10f58ea72ba1b9a1f6d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:12 +0000
Subject: [PATCH 023/107] fix: let a wildcard match any value in as_val_cmp()

The types were compared before looking for the wildcard, so it only matched
another wildcard, unlike in the comparison of packed values.
---
 src/main/aerospike/as_msgpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 6c0c7ab..ff583c1 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -696,12 +696,12 @@ as_val_cmp(const as_val* v1, const as_val* v2)
 	as_val_t t1 = as_val_type(v1);
 	as_val_t t2 = as_val_type(v2);
 
-	MSGPACK_COMPARE_RET_LESS_OR_GREATER(t1, t2);
-
 	if (t1 == AS_CMP_WILDCARD || t2 == AS_CMP_WILDCARD) {
 		return MSGPACK_COMPARE_EQUAL;
 	}
 
+	MSGPACK_COMPARE_RET_LESS_OR_GREATER(t1, t2);
+
 	switch (t1) {
 	case AS_NIL:
 		break;
-- 
2.43.0


From 1c8d084dc03eea5872c4c06ae5a9118e164d1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:19 +0000
Subject: [PATCH 024/107] fix: let an as_queue created with capacity 0 grow

Pushing to such a queue divided by its zero capacity.
---
 src/main/aerospike/as_queue.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index ff47756..4586c92 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -70,6 +70,24 @@ as_queue_increase_capacity(as_queue* queue)
 {
 	uint32_t new_capacity = queue->capacity * 2;
 	
+	if (new_capacity == 0) {
+		// Queue was created without capacity, so there are no items to move.
+		uint8_t* data = cf_malloc(queue->item_size);
+
+		if (! data) {
+			return false;
+		}
+
+		if (queue->flags & ITEMS_ON_HEAP) {
+			cf_free(queue->data);
+		}
+		queue->data = data;
+		queue->head = queue->tail = 0;
+		queue->capacity = 1;
+		queue->flags |= ITEMS_ON_HEAP;
+		return true;
+	}
+
 	if (queue->flags & ITEMS_ON_HEAP) {
 		// Data already allocated on heap.
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
-- 
2.43.0


From 4d9edcd46fe16f6638fd4d0a5f8849f9f3c507d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:19 +0000
Subject: [PATCH 025/107] fix: let a cf_queue created with capacity 0 grow

Pushing to such a queue divided by its zero capacity.
---
 src/main/citrusleaf/cf_queue.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 99f9f07..31dbcc2 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -126,9 +126,14 @@ cf_queue_unlock(cf_queue *q)
 static int
 cf_queue_resize(cf_queue *q, uint32_t new_sz)
 {
+	if (new_sz == 0) {
+		// Queue was created without capacity.
+		new_sz = CF_QUEUE_ALLOCSZ;
+	}
+
 	// The rare case where the queue is not fragmented, and realloc makes sense
 	// and none of the offsets need to move.
-	if (0 == q->read_offset % q->alloc_sz) {
+	if (q->alloc_sz == 0 || 0 == q->read_offset % q->alloc_sz) {
 		q->elements = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
 
 		if (! q->elements) {
-- 
2.43.0


From b8729cde310bab35de6275c0617e2930a74a75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:51 +0000
Subject: [PATCH 026/107] fix: delete all matching elements from a wrapped
 cf_queue

Deleting an element in the wrapped part moves the elements behind it down by
one, and the scan then skipped the element which took its place.
---
 src/main/citrusleaf/cf_queue.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 31dbcc2..6a89771 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -679,12 +679,20 @@ cf_queue_delete(cf_queue *q, const void *ptr, bool only_one)
 			}
 
 			if (rv == 0) {
+				uint32_t write_offset = q->write_offset;
+
 				cf_queue_delete_offset(q, i);
 				found = true;
 
 				if (only_one) {
 					break;
 				}
+
+				// If the elements after the deleted one moved down, the next
+				// element to look at is now at this offset.
+				if (q->write_offset != write_offset) {
+					i--;
+				}
 			}
 		}
 	}
-- 
2.43.0


From 453dead53a2c6fa60d85b2d1e910654817054791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:59 +0000
Subject: [PATCH 027/107] fix: let an as_vector created with capacity 0 grow

Doubling a zero capacity left it zero, so items were written outside the array.
---
 src/main/aerospike/as_vector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 0cfe2a2..1a7fdd0 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -54,12 +54,13 @@ as_vector_destroy(as_vector* vector)
 void
 as_vector_increase_capacity(as_vector* vector)
 {
+	uint32_t capacity = vector->capacity ? vector->capacity * 2 : 1;
+
 	if (vector->flags & FLAGS_HEAP) {
-		vector->capacity *= 2;
+		vector->capacity = capacity;
 		vector->list = cf_realloc(vector->list, vector->capacity * vector->item_size);
 	}
 	else {
-		uint32_t capacity = vector->capacity * 2;
 		void* tmp = cf_malloc(capacity * vector->item_size);
 		memcpy(tmp, vector->list, vector->capacity * vector->item_size);
 		vector->list = tmp;
-- 
2.43.0


From 84bd4177b10ef5a0657d6e4d771d4adba9109e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:26 +0000
Subject: [PATCH 028/107] fix: keep room for the terminator in
 as_string_builder_init

With capacity 0 the terminator was written outside the allocated buffer.
---
 src/main/aerospike/as_string_builder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index d7a8b58..4a4d267 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -24,6 +24,11 @@ extern const char as_hex_chars[];
 void
 as_string_builder_init(as_string_builder* sb, uint32_t capacity, bool resize)
 {
+	if (capacity == 0) {
+		// The terminator always needs space.
+		capacity = 1;
+	}
+
 	sb->data = (char*)cf_malloc(capacity);
 	sb->data[0] = 0;
 	sb->capacity = capacity;
-- 
2.43.0


From 9c7a7421565cb2d22e92cb233d34344aab430f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:26 +0000
Subject: [PATCH 029/107] fix: append empty byte arrays as [] in
 as_string_builder_append_bytes

Removing the separator after the last byte removed the opening bracket when
there were no bytes.
---
 src/main/aerospike/as_string_builder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 4a4d267..9fa147f 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -166,6 +166,10 @@ as_sb_append_byte(as_string_builder* sb, uint8_t b)
 bool
 as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t size)
 {
+	if (size == 0) {
+		return as_string_builder_append(sb, "[]");
+	}
+
 	if (sb->resize) {
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
-- 
2.43.0


From 5d0a43850f95d72d73d93205461ed4dc2c89b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:26 +0000
Subject: [PATCH 030/107] fix: do not write to a target of size 0 in as_strncpy

---
 src/main/aerospike/as_string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index a37c542..2a69e7d 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -196,6 +196,10 @@ char * as_string_val_tostring(const as_val * v)
 bool
 as_strncpy(char* trg, const char* src, int size)
 {
+	if (size <= 0) {
+		return true;
+	}
+
 	if (src) {
 		int max = size - 1;
 		int i = 0;
-- 
2.43.0


From 05482505d215e3e913b91b9008b3cad684f04d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:01 +0000
Subject: [PATCH 031/107] fix: check as_bytes bounds without integer overflow

The sum of index and size wrapped around for large arguments, so accesses far
outside the buffer passed the check.
---
 src/main/aerospike/as_bytes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index fc814bc..27053fb 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -153,7 +153,7 @@ as_bytes * as_bytes_new_wrap(uint8_t * value, uint32_t size, bool free)
  */
 uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value, uint32_t size)
 {
-	uint32_t sz = index + size > bytes->size ? 0 : size;
+	uint32_t sz = (uint64_t)index + size > bytes->size ? 0 : size;
 	if ( sz == 0 ) return sz;
 	memcpy(value, &bytes->value[index], sz);
     return sz;
@@ -218,7 +218,7 @@ uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t *
  */
 bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint32_t size)
 {
-    if ( index + size > bytes->capacity ) return false;
+    if ( (uint64_t)index + size > bytes->capacity ) return false;
     memcpy(&bytes->value[index], value, size);
     if ( index + size > bytes->size ) {
     	bytes->size = index + size;
-- 
2.43.0


From 00e3e1b7581b5039848f03fe9fadfe88959949b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:01 +0000
Subject: [PATCH 032/107] fix: stop reading variable length integers at the end
 of as_bytes

An unfinished or over-long integer is now reported as an error (0 bytes), as
documented.
---
 src/main/aerospike/as_bytes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 27053fb..cb3bec4 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -178,12 +178,17 @@ uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value,
 uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t * value)
 {
 	uint8_t* begin = bytes->value + index;
+	uint8_t* end = bytes->value + bytes->capacity;
 	uint8_t* p = begin;
 	uint32_t val = 0;
 	uint32_t shift = 0;
 	uint8_t b;
 	
 	do {
+		// A 32 bit integer takes at most 5 bytes.
+		if (p >= end || shift >= 35) {
+			return 0;
+		}
 		b = *p++;
 		val |= (b & 0x7F) << shift;
 		shift += 7;
-- 
2.43.0


From 5ad4ac2e6b75c33863ba88b88970f03d2280ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:01 +0000
Subject: [PATCH 033/107] fix: write a variable length integer to as_bytes only
 if it fits

When the integer did not fit, its first bytes were written anyway.
---
 src/main/aerospike/as_bytes.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index cb3bec4..172499c 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -252,17 +252,22 @@ uint32_t as_bytes_set_var_int(const as_bytes * bytes, uint32_t index, uint32_t v
 	uint8_t* begin = bytes->value + index;
 	uint8_t* end = bytes->value + bytes->capacity;
 	uint8_t* p = begin;
-	
-	while (p < end && value >= 0x80) {
+	uint32_t size = 1;
+
+	for (uint32_t v = value; v >= 0x80; v >>= 7) {
+		size++;
+	}
+
+	if (begin >= end || (size_t)(end - begin) < size) {
+		return 0;
+	}
+
+	while (value >= 0x80) {
 		*p++ = (uint8_t)(value | 0x80);
 		value >>= 7;
 	}
-	
-	if (p < end) {
-		*p++ = (uint8_t)value;
-		return (uint32_t)(p - begin);
-	}
-	return 0;
+	*p++ = (uint8_t)value;
+	return size;
 }
 
 /******************************************************************************
-- 
2.43.0


From a0fabac991aa5a113c21b55f1b3df296db283a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:05 +0000
Subject: [PATCH 034/107] fix: compute hex string size in 64 bits

---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 172499c..84969e5 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -446,7 +446,7 @@ bool
 as_bytes_to_string(const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size)
 {
 	// Ensure hex string has enough space including null terminator.
-	if ((bytes_size * 2 + 1) > str_size) {
+	if (((uint64_t)bytes_size * 2 + 1) > str_size) {
 		if (str_size > 0) {
 			*str = 0;
 		}
-- 
2.43.0


From 791d5b40c75d3fe63c9cbc3dd99a7cffc34c7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:05 +0000
Subject: [PATCH 035/107] fix: refuse prefixed hex string in a buffer too small
 for the prefix

---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 84969e5..9a97fb4 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -468,7 +468,7 @@ as_bytes_to_string_with_prefix(
 	const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size
 	)
 {
-	if (as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
+	if (str_size > 2 && as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
 		*str++ = '0';
 		*str = 'x';
 		return true;
-- 
2.43.0


From 27c146cabaac1476c2a14d2621e02d330a798406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:25 +0000
Subject: [PATCH 036/107] fix: hash whole message in cf_SHA1 when it has 2^32
 bytes or more

---
 src/main/citrusleaf/cf_crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/citrusleaf/cf_crypto.c b/src/main/citrusleaf/cf_crypto.c
index 6978e04..c0cb93c 100644
--- a/src/main/citrusleaf/cf_crypto.c
+++ b/src/main/citrusleaf/cf_crypto.c
@@ -64,7 +64,7 @@ typedef struct cf_SHA1Context_s {
 //
 
 static int cf_SHA1Reset(cf_SHA1Context *context);
-static int cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array, unsigned length);
+static int cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array, size_t length);
 static int cf_SHA1Result(cf_SHA1Context *context, uint8_t Message_Digest[CF_SHA1HashSize]);
 
 static void cf_SHA1ProcessMessageBlock(cf_SHA1Context *);
@@ -89,7 +89,7 @@ cf_SHA1(const uint8_t* d, size_t n, uint8_t* md)
 	cf_SHA1Context sha;
 
 	cf_SHA1Reset(&sha);
-	cf_SHA1Input(&sha, d, (unsigned)n);
+	cf_SHA1Input(&sha, d, n);
 	cf_SHA1Result(&sha, md);
 }
 
@@ -123,7 +123,7 @@ cf_SHA1Reset(cf_SHA1Context *context)
 
 static int
 cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array,
-		unsigned length)
+		size_t length)
 {
 	if (! length) {
 		return cf_shaSuccess;
-- 
2.43.0


From 0ad0b757ab1bb9d296c2d82ab85ef413dba5bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:13 +0000
Subject: [PATCH 037/107] fix: count high part of length in cf_RIPEMD160_Update

---
 src/main/citrusleaf/cf_crypto.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/citrusleaf/cf_crypto.c b/src/main/citrusleaf/cf_crypto.c
index c0cb93c..8534e7f 100644
--- a/src/main/citrusleaf/cf_crypto.c
+++ b/src/main/citrusleaf/cf_crypto.c
@@ -428,6 +428,8 @@ cf_RIPEMD160_Update(cf_RIPEMD160_CTX* ctx, const void* v_input, size_t ilen)
 		ctx->total[1]++;
 	}
 
+	ctx->total[1] += (uint32_t) ((uint64_t) ilen >> 32);
+
 	if (left && ilen >= fill) {
 		memcpy((void*)(ctx->buffer + left), input, fill);
 
-- 
2.43.0


From a17551fb76cf69ea9cb3e7723833a03c398da66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:10 +0000
Subject: [PATCH 038/107] fix: wait forever in cf_queue pops for every negative
 wait time

---
 src/main/citrusleaf/cf_queue.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 6a89771..198ab87 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -442,7 +442,7 @@ cf_queue_pop(cf_queue *q, void *buf, int ms_wait)
 		// others will find the queue empty and go back to waiting.
 
 		while (CF_Q_EMPTY(q)) {
-			if (CF_QUEUE_FOREVER == ms_wait) {
+			if (ms_wait < 0) {
 				pthread_cond_wait(&q->CV, &q->LOCK);
 			}
 			else if (CF_QUEUE_NOWAIT == ms_wait) {
@@ -575,7 +575,7 @@ cf_queue_reduce_pop(cf_queue *q, void *buf, int ms_wait, cf_queue_reduce_fn cb,
 		// others will find the queue empty and go back to waiting.
 
 		while (CF_Q_EMPTY(q)) {
-			if (CF_QUEUE_FOREVER == ms_wait) {
+			if (ms_wait < 0) {
 				pthread_cond_wait(&q->CV, &q->LOCK);
 			}
 			else if (CF_QUEUE_NOWAIT == ms_wait) {
-- 
2.43.0


From 25ef74c832e062b4b16ac3fc266f3a3ef634817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:31 +0000
Subject: [PATCH 039/107] fix: order accesses to as_result before its
 destruction

---
 src/main/aerospike/as_result.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 5139105..6c3e1e1 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -48,7 +48,10 @@ as_result * as_result_reserve(as_result * r) {
 
 void as_result_destroy(as_result *r) {
     // if we reach the last reference, call the destructor, and free
-	if (as_aaf_uint32(&r->count, -1) == 0) {
+	if (as_aaf_uint32_rls(&r->count, -1) == 0) {
+		// Accesses of other owners must precede the destruction.
+		as_fence_acq();
+
         if (r->value) {
             as_val_destroy(r->value); 
             r->value = NULL;
-- 
2.43.0


From b0a00c27afcae9566390b9aeddf6c8d11f85e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:31 +0000
Subject: [PATCH 040/107] fix: order accesses to reference counted block before
 it is freed

---
 src/main/citrusleaf/cf_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 745c8e1..913a263 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -130,6 +130,8 @@ cf_rc_releaseandfree(void* addr)
 	uint32_t rc = as_aaf_uint32_rls(&head->count, -1);
 
 	if (rc == 0) {
+		// Accesses of other owners must precede the free.
+		as_fence_acq();
 		free(head);
 	}
 
-- 
2.43.0


From b0267d28edc36aa07f58bcfe5983f68804bf6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:31 +0000
Subject: [PATCH 041/107] fix: keep started threads together in thread pool and
 release memory when none started

---
 src/main/aerospike/as_thread_pool.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 5a81e42..4fe7c36 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -61,12 +61,29 @@ as_thread_worker(void* data)
 	return NULL;
 }
 
+static void
+as_thread_pool_free(as_thread_pool* pool)
+{
+	cf_free(pool->threads);
+	pool->threads = NULL;
+
+	if (pool->dispatch_queue) {
+		cf_queue_destroy(pool->dispatch_queue);
+		pool->dispatch_queue = NULL;
+	}
+}
+
 int
 as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 {
 	if (thread_size != 0) {
 		pool->threads = cf_calloc(thread_size, sizeof(pthread_t));
 		pool->dispatch_queue = cf_queue_create(sizeof(as_thread_pool_task), true);
+
+		if (! pool->threads || ! pool->dispatch_queue) {
+			// No threads can be started.
+			as_thread_pool_free(pool);
+		}
 	}
 	else {
 		pool->threads = NULL;
@@ -76,11 +93,16 @@ as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 	pool->thread_size = 0;
 
 	// Start threads.
-	for (uint32_t i = 0; i < thread_size; i++) {
-		if (pthread_create(&pool->threads[i], NULL, as_thread_worker, pool) == 0) {
+	for (uint32_t i = 0; i < thread_size && pool->threads; i++) {
+		if (pthread_create(&pool->threads[pool->thread_size], NULL, as_thread_worker, pool) == 0) {
 			pool->thread_size++;
 		}
 	}
+
+	if (pool->thread_size == 0 && pool->threads) {
+		// There is nothing to shut down later.
+		as_thread_pool_free(pool);
+	}
 	return (pool->thread_size == thread_size)? 0 : -3;
 }
 
@@ -131,7 +153,6 @@ as_thread_pool_destroy(as_thread_pool* pool)
 		pthread_join(pool->threads[i], NULL);
 	}
 
-	cf_free(pool->threads);
-	cf_queue_destroy(pool->dispatch_queue);
+	as_thread_pool_free(pool);
 	return 0;
 }
-- 
2.43.0


From d09857bc30f0dfb201ad968f33384c056bdd3197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:07 +0000
Subject: [PATCH 042/107] fix: check the size inside the lock in cf_ll_delete

The size was read before the lock was taken, racing with other threads.
---
 src/main/citrusleaf/cf_ll.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/citrusleaf/cf_ll.c b/src/main/citrusleaf/cf_ll.c
index d328283..09fa863 100644
--- a/src/main/citrusleaf/cf_ll.c
+++ b/src/main/citrusleaf/cf_ll.c
@@ -166,12 +166,12 @@ void cf_ll_delete_lockfree(cf_ll *ll, cf_ll_element *e ) {
 }
 
 void cf_ll_delete(cf_ll *ll, cf_ll_element *e ) {
-	// extra check for fun
-	if (ll->sz == 0)	return;
-
 	LL_LOCK(ll);
 
-	cf_ll_delete_lockfree(ll, e);
+	// extra check for fun
+	if (ll->sz != 0) {
+		cf_ll_delete_lockfree(ll, e);
+	}
 	
 	LL_UNLOCK(ll);
 	
-- 
2.43.0


From 26b83e52ebb8aeb3ef082ba1fd4130c51754a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:31 +0000
Subject: [PATCH 043/107] fix: avoid 32-bit overflow in buffer pool size checks

A size close to the 32-bit limit wrapped when the header size was added, so a
pooled buffer that is too small was handed out.
---
 src/main/aerospike/as_buffer_pool.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_buffer_pool.c b/src/main/aerospike/as_buffer_pool.c
index 08691ef..d7b9def 100644
--- a/src/main/aerospike/as_buffer_pool.c
+++ b/src/main/aerospike/as_buffer_pool.c
@@ -35,18 +35,19 @@ as_buffer_pool_init(as_buffer_pool* pool, uint32_t header_size, uint32_t buffer_
 int
 as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer)
 {
-	size += pool->header_size;
+	// Use a wider type because size plus header can exceed 32 bits.
+	uint64_t total = (uint64_t)size + pool->header_size;
 	
-	if (size > pool->buffer_size) {
+	if (total > pool->buffer_size) {
 		// Requested size is greater than fixed buffer size.
 		// Allocate new buffer, but don't put back into pool.
-		buffer->data = cf_malloc(size);
+		buffer->data = cf_malloc((size_t)total);
 		
 		if (! buffer->data) {
 			return -1;
 		}
 		
-		buffer->capacity = size - pool->header_size;
+		buffer->capacity = size;
 		return 2;
 	}
 	
@@ -76,7 +77,7 @@ as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer
 int
 as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool.
 		if (cf_queue_push(pool->queue, &buffer) == CF_QUEUE_OK) {
 			return 0;
@@ -96,7 +97,7 @@ as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 int
 as_buffer_pool_push_limit(as_buffer_pool* pool, void* buffer, uint32_t capacity, uint32_t max_buffers)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool up to a limit.
 		if (cf_queue_push_limit(pool->queue, &buffer, max_buffers)) {
 			// Success.
-- 
2.43.0


From 8d9579273d33980792e391b79121c50361ca7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:44 +0000
Subject: [PATCH 044/107] fix: allow a missing certificate in as_tls_match_name

The list of names is absent when there is no certificate and was freed anyway.
---
 src/main/aerospike/ssl_util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 3d8280e..5f26c00 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -367,7 +367,9 @@ static BOOL modssl_X509_match_name(apr_pool_t *p, X509 *x509, const char *name,
 	}
 #endif
 
-    as_array_destroy(ids);
+    if (ids) {
+        as_array_destroy(ids);
+    }
     
     return matched;
 }
-- 
2.43.0


From e40877066bda012c0f04d2b1d002bbe7b90e5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:44 +0000
Subject: [PATCH 045/107] fix: do not let a TLS wildcard stand for an empty
 label

The name *.com matched the host .com.
---
 src/main/aerospike/ssl_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 5f26c00..bcf3541 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -337,7 +337,8 @@ static BOOL modssl_X509_match_name(apr_pool_t *p, X509 *x509, const char *name,
              * to match a dot. Otherwise, try a simple string compare.
              */
             if ((allow_wildcard == TRUE && is_wildcard == TRUE &&
-                 (cp = strchr(name, '.')) && !strcasecmp(id[i]+1, cp)) ||
+                 (cp = strchr(name, '.')) && cp != name &&
+                 !strcasecmp(id[i]+1, cp)) ||
                 !strcasecmp(id[i], name)) {
                 matched = TRUE;
             }
-- 
2.43.0


From 19a49865788cd72febc044ddf8f9395882d104df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:44 +0000
Subject: [PATCH 046/107] fix: compare whole DNS alternative names in
 as_tls_match_san

Only the part before an embedded NUL byte was compared, so a certificate for
"host\0.other" was accepted for "host".
---
 src/main/aerospike/ssl_util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index bcf3541..cb32e74 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -461,7 +461,11 @@ bool as_tls_match_san(X509 *x509, const char *name) {
 			char *san = (char*)ASN1_STRING_get0_data(dns_name);
 #endif
 
-			if (strcmp(name, san) == 0) {
+			// The name may contain NUL bytes, so compare its full length.
+			size_t san_length = (size_t)ASN1_STRING_length(dns_name);
+
+			if (strlen(name) == san_length &&
+					memcmp(name, san, san_length) == 0) {
 				match = true;
 				break;
 			}
-- 
2.43.0


From f0327d19d1b23a1565cc457f33eff3cd212318ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:44 +0000
Subject: [PATCH 047/107] fix: discard the random pool when a refill fails

A failed refill leaves the contents of the pool undefined, but its remaining
bytes were still handed out to smaller requests.
---
 src/main/citrusleaf/cf_random.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/citrusleaf/cf_random.c b/src/main/citrusleaf/cf_random.c
index bd9f0b6..ada9ef6 100644
--- a/src/main/citrusleaf/cf_random.c
+++ b/src/main/citrusleaf/cf_random.c
@@ -64,6 +64,9 @@ cf_rand_reload(void)
 		seeded = 1;
 	}
 
+	// The contents are undefined if the reload fails.
+	rand_buf_off = 0;
+
 	if (RAND_bytes(rand_buf, sizeof(rand_buf)) != 1) {
 #if ! defined ENHANCED_ALLOC
 		as_log_error("Failed to reload random buffer");
-- 
2.43.0


From 17b8568a108f874d3a30bf689207e2ac1003fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:44 +0000
Subject: [PATCH 048/107] fix: carry a full second of nanoseconds in deadlines

A deadline falling exactly on a second got tv_nsec of 1000000000, which is not a
valid time specification and makes timed waits fail at once.
---
 src/include/citrusleaf/cf_clock.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/citrusleaf/cf_clock.h b/src/include/citrusleaf/cf_clock.h
index f8a14af..9dd26d8 100644
--- a/src/include/citrusleaf/cf_clock.h
+++ b/src/include/citrusleaf/cf_clock.h
@@ -91,7 +91,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec += ms_wait / 1000;
 	out->tv_nsec += (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -104,7 +104,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec += delta->tv_sec;
 	out->tv_nsec += delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -167,7 +167,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec = now.tv_sec + (ms_wait / 1000);
 	out->tv_nsec = now.tv_usec * 1000 + (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -182,7 +182,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = now.tv_sec + delta->tv_sec;
 	out->tv_nsec = now.tv_usec * 1000 + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -275,7 +275,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = nanos / (1000 * 1000 * 1000) + delta->tv_sec;
 	out->tv_nsec = (nanos % (1000 * 1000 * 1000)) + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
-- 
2.43.0


From 1eced3cc5ccbc88587ce62ed88098e8040e9c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:22 +0000
Subject: [PATCH 049/107] fix: do not look before the buffer for an empty typed
 password

---
 src/main/aerospike/as_password.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_password.c b/src/main/aerospike/as_password.c
index be53dc2..e093b94 100644
--- a/src/main/aerospike/as_password.c
+++ b/src/main/aerospike/as_password.c
@@ -117,7 +117,7 @@ as_password_prompt(char* password, int size)
 	if (s) {
 		int len = (int)strlen(password);
 
-		if (password[len - 1] == '\n') {
+		if (len > 0 && password[len - 1] == '\n') {
 			password[--len] = 0;
 		}
 	}
-- 
2.43.0


From 1abb2d825346e5647b8884f30429b39670f5d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:08 +0000
Subject: [PATCH 050/107] fix: render pairs holding elements without text

Rendering a pair crashed when one of its elements has no text of its own,
for example an empty blob. Show such an element as <NULL>, as lists do.
---
 src/main/aerospike/as_pair.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/main/aerospike/as_pair.c b/src/main/aerospike/as_pair.c
index 0e8c017..4984d40 100644
--- a/src/main/aerospike/as_pair.c
+++ b/src/main/aerospike/as_pair.c
@@ -66,23 +66,26 @@ char *as_pair_val_tostring(const as_val * v)
 	if ( p == NULL ) return NULL;
 
 	char * a = as_val_tostring(p->_1);
-	size_t al = strlen(a);
+	const char * astr = a ? a : "<NULL>";
+	size_t al = strlen(astr);
 	char * b = as_val_tostring(p->_2);
-	size_t bl = strlen(b);
+	const char * bstr = b ? b : "<NULL>";
+	size_t bl = strlen(bstr);
 	
 	size_t l = al + bl + 5;
 	char * str = (char *) cf_malloc(sizeof(char) * l);
-	if (!str) return str;
 
-	strcpy(str, "(");
-	strcpy(str+1, a);
-	strcpy(str+1+al,", ");
-	strcpy(str+1+al+2, b);
-	strcpy(str+1+al+2+bl,")");
-	*(str+1+al+2+bl+1) = '\0';
+	if (str) {
+		strcpy(str, "(");
+		strcpy(str+1, astr);
+		strcpy(str+1+al,", ");
+		strcpy(str+1+al+2, bstr);
+		strcpy(str+1+al+2+bl,")");
+		*(str+1+al+2+bl+1) = '\0';
+	}
 	
-	cf_free(a);
-	cf_free(b);
+	if (a) cf_free(a);
+	if (b) cf_free(b);
 
 	return str;
 }
-- 
2.43.0


From 25da6faf3f1ff7f2796183ff1cdc73fe29912530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:08 +0000
Subject: [PATCH 051/107] fix: render map entries without text

Rendering a map stopped silently at the first key or value that has no text
of its own, for example an empty blob, and dropped all later entries. Show
such a key or value as <NULL>, as lists do.
---
 src/main/aerospike/as_map.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index a436ff2..8cf747a 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -68,21 +68,22 @@ typedef struct as_map_val_tostring_data_s {
 	bool		sep;
 } as_map_val_tostring_data;
 
+extern const char NULL_STR[];
+
 static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, void* udata)
 {
 	as_map_val_tostring_data * data = (as_map_val_tostring_data *) udata;
 
 	char * keystr = as_val_tostring(key);
 	if (!keystr) {
-		return false;
+		keystr = (char *)NULL_STR;
 	}
 	int keylen = (int)strlen(keystr);
 
 	char * valstr = as_val_tostring(val);
-    if (!valstr) {
-		cf_free(keystr);
-    	return false;
-    }
+	if (!valstr) {
+		valstr = (char *)NULL_STR;
+	}
 	int vallen = (int)strlen(valstr);
 
 	uint32_t entlen = keylen + 2 + vallen + 2;
@@ -111,11 +112,13 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	data->sep = true;
 
-	cf_free(keystr);
-	keystr = NULL;
+	if (keystr != NULL_STR) {
+		cf_free(keystr);
+	}
 
-	cf_free(valstr);
-	valstr = NULL;
+	if (valstr != NULL_STR) {
+		cf_free(valstr);
+	}
 
 	return true;
 }
-- 
2.43.0


From 77dcc81c1a7cc49ee16adf7342e205fd28345833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:08 +0000
Subject: [PATCH 052/107] fix: hash positive and negative zero doubles alike

The two zeros compare equal, so they must have the same hash code.
---
 src/main/aerospike/as_double.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_double.c b/src/main/aerospike/as_double.c
index 0eb51e2..3c2036d 100644
--- a/src/main/aerospike/as_double.c
+++ b/src/main/aerospike/as_double.c
@@ -71,6 +71,11 @@ as_double_val_hashcode(const as_val* val)
 		return 0;
 	}
 	
+	if (value_ptr->value == 0.0) {
+		// Positive and negative zero are equal.
+		return 0;
+	}
+
 	uint64_t v = *(uint64_t*)&value_ptr->value;
 	return (uint32_t)(v ^ (v >> 32));
 }
-- 
2.43.0


From faf03288f4636a36f8f40e83948f0e478788057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:09 +0000
Subject: [PATCH 053/107] fix: record whether a timer was heap allocated

Destroying a timer frees it when it was heap allocated, but neither
constructor set the flag that says so.
---
 src/main/aerospike/as_timer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_timer.c b/src/main/aerospike/as_timer.c
index 6a56fbc..6abdacd 100644
--- a/src/main/aerospike/as_timer.c
+++ b/src/main/aerospike/as_timer.c
@@ -27,6 +27,7 @@
  */
 as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks * hooks) {
     if ( timer == NULL ) return timer;
+    timer->is_malloc = false;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
@@ -38,6 +39,7 @@ as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks *
 as_timer * as_timer_new(void * source, const as_timer_hooks * hooks) {
     as_timer * timer = (as_timer *) cf_malloc(sizeof(as_timer));
     if (!timer) return timer;
+    timer->is_malloc = true;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
-- 
2.43.0


From 351f29f4b12ec734f4b6dcf85738515ce3b3908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:09 +0000
Subject: [PATCH 054/107] fix: accept a missing iterator in as_iterator_destroy

The call to the provider is skipped for a null iterator, but its fields
were still written.
---
 src/main/aerospike/as_iterator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_iterator.c b/src/main/aerospike/as_iterator.c
index 3868c4f..8ed5075 100644
--- a/src/main/aerospike/as_iterator.c
+++ b/src/main/aerospike/as_iterator.c
@@ -34,6 +34,8 @@ as_iterator * as_iterator_init(as_iterator * iterator, bool free, void * data, c
 
 void as_iterator_destroy(as_iterator * iterator)
 {
+	if ( !iterator ) return;
+
     as_util_hook(destroy, 1, iterator);
 	iterator->data = NULL;
 	iterator->hooks = NULL;
-- 
2.43.0


From d190eab131d7a18d43337a3e88ff6b7bc5813524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:30 +0000
Subject: [PATCH 055/107] fix: accept a missing serializer in
 as_serializer_destroy

All other operations on a serializer accept a null handle.
---
 src/main/aerospike/as_serializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_serializer.c b/src/main/aerospike/as_serializer.c
index fe96800..3389160 100644
--- a/src/main/aerospike/as_serializer.c
+++ b/src/main/aerospike/as_serializer.c
@@ -46,7 +46,7 @@ as_serializer *as_serializer_new(const as_serializer_hooks *hooks)
 
 void as_serializer_destroy(as_serializer *serializer)
 {
-	if (serializer->free) {
+	if (serializer && serializer->free) {
 		cf_free(serializer);
 	}
 }
-- 
2.43.0


From f6341c8464a21eff746662d56dc871c00f5fd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:30 +0000
Subject: [PATCH 056/107] fix: accept a missing handle in as_aerospike_destroy

All other operations on the handle accept null.
---
 src/main/aerospike/as_aerospike.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_aerospike.c b/src/main/aerospike/as_aerospike.c
index f954f4b..a348958 100644
--- a/src/main/aerospike/as_aerospike.c
+++ b/src/main/aerospike/as_aerospike.c
@@ -41,6 +41,6 @@ as_aerospike * as_aerospike_new(void * s, const as_aerospike_hooks * h)
 
 void as_aerospike_destroy(as_aerospike * a)
 {
-	if (a->is_rcalloc)
+	if (a && a->is_rcalloc)
 	   cf_rc_releaseandfree(a);
 }
-- 
2.43.0


From 94353690add2d5ac411463ccb5f982f2d1630a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 057/107] fix: report failure to allocate the elements of a new
 array list

as_arraylist_init() and as_arraylist_new() returned a list with a capacity
but no element table when the table could not be allocated. The first
insert then wrote through a null pointer.
---
 src/main/aerospike/as_arraylist.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 3455fe1..bd853fd 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -43,6 +43,10 @@ as_arraylist_init(as_arraylist* list, uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+		if (!list->elements) {
+			list->capacity = 0;
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -64,6 +68,10 @@ as_arraylist_new(uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+		if (!list->elements) {
+			cf_free(list);
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
-- 
2.43.0


From fe087d5ace9660f1c9eb96ad6a8a66a2fb38334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 058/107] fix: return NULL from array list tail, take and drop
 on allocation failure

---
 src/main/aerospike/as_arraylist.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index bd853fd..c5a1eec 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -472,6 +472,7 @@ as_arraylist_tail(const as_arraylist* list)
 	if (list->size == 0) return NULL;
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
+	if (!list2) return NULL;
 
 	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
@@ -493,7 +494,8 @@ as_arraylist_drop(const as_arraylist* list, uint32_t n)
 	uint32_t		sz		= list->size;
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(sz-c, list->block_size);
-	
+	if (!list2) return NULL;
+
 	list2->size = sz-c;
 	for(uint32_t i = c, j = 0; j < list2->size; i++, j++) {
 		if (list->elements[i]) {
@@ -514,6 +516,7 @@ as_arraylist_take(const as_arraylist* list, uint32_t n)
 	uint32_t		sz		= list->size;
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(c, list->block_size);
+	if (!list2) return NULL;
 
 	list2->size = c;
 	for(uint32_t i = 0; i < c; i++) {
-- 
2.43.0


From 9f8cd534dc6400a31ca1d12511d3e4e95acfebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 059/107] fix: report failure to allocate the value of typed
 array list setters

The typed set, insert, append and prepend functions stored nil and
returned success when the value could not be allocated.
---
 src/main/aerospike/as_arraylist.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index c5a1eec..d19ac79 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -251,6 +251,7 @@ int
 as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_set(list, index, val), val);
 }
 
@@ -258,6 +259,7 @@ int
 as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_set(list, index, val), val);
 }
 
@@ -265,6 +267,7 @@ int
 as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_set(list, index, val), val);
 }
 
@@ -311,6 +314,7 @@ int
 as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_insert(list, index, val), val);
 }
 
@@ -318,6 +322,7 @@ int
 as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_insert(list, index, val), val);
 }
 
@@ -325,6 +330,7 @@ int
 as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_insert(list, index, val), val);
 }
 
@@ -342,6 +348,7 @@ int
 as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_append(list, val), val);
 }
 
@@ -349,6 +356,7 @@ int
 as_arraylist_append_double(as_arraylist* list, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_append(list, val), val);
 }
 
@@ -356,6 +364,7 @@ int
 as_arraylist_append_str(as_arraylist* list, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_append(list, val), val);
 }
 
@@ -373,6 +382,7 @@ int
 as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_prepend(list, val), val);
 }
 
@@ -380,6 +390,7 @@ int
 as_arraylist_prepend_double(as_arraylist* list, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_prepend(list, val), val);
 }
 
@@ -387,6 +398,7 @@ int
 as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
+	if (!val) return AS_ARRAYLIST_ERR_ALLOC;
 	return as_arraylist_release_on_error(as_arraylist_prepend(list, val), val);
 }
 
-- 
2.43.0


From 56396a456bfd109b104a0638b3f41e9755ed7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 060/107] fix: report allocation failure in
 as_string_new_strdup()

A failed copy of the characters produced a value without any, and a failed
allocation of the value leaked the copy.
---
 src/main/aerospike/as_string.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index 2a69e7d..3988e7e 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -57,7 +57,12 @@ as_string * as_string_new_wlen(char * value, size_t len, bool free)
 
 as_string *as_string_new_strdup(const char * s)
 {
-	return as_string_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if ( !value ) return NULL;
+
+	as_string * string = as_string_new(value, true);
+	if ( !string ) cf_free(value);
+	return string;
 }
 
 /******************************************************************************
-- 
2.43.0


From fb35b78af44aa80feb6a638ddfb8b4635e9fbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 061/107] fix: report allocation failure in
 as_geojson_new_strdup()

A failed copy of the characters produced a value without any, and a failed
allocation of the value leaked the copy.
---
 src/main/aerospike/as_geojson.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_geojson.c b/src/main/aerospike/as_geojson.c
index 3212643..f210115 100644
--- a/src/main/aerospike/as_geojson.c
+++ b/src/main/aerospike/as_geojson.c
@@ -69,7 +69,12 @@ as_geojson * as_geojson_new_wlen(char * value, size_t len, bool free)
 
 as_geojson *as_geojson_new_strdup(const char * s)
 {
-	return as_geojson_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if ( !value ) return NULL;
+
+	as_geojson * string = as_geojson_new(value, true);
+	if ( !string ) cf_free(value);
+	return string;
 }
 
 /******************************************************************************
-- 
2.43.0


From 026320c6bccc6b6a27d59211fbfd88759095add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 062/107] fix: return NULL from as_basename() on allocation
 failure

---
 src/main/aerospike/as_string.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index 3988e7e..c877ad0 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -138,6 +138,11 @@ const char* as_basename(as_string * filename, const char* path)
 
 		size_t len = (end - p) + 1;
 		char* str = cf_malloc(len + 1);
+
+		if (! str) {
+			as_string_cons(filename, false, NULL, 0, false);
+			return NULL;
+		}
 		memcpy(str, p, len);
 		*(str + len) = 0;
 		as_string_cons(filename, false, str, len, true);
-- 
2.43.0


From 49af91785bf516300b5495d98a554d99110869e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 063/107] fix: report failure to allocate the memory of a new
 byte buffer

as_bytes_init() and as_bytes_new() are documented to return NULL on
failure. They returned a buffer with a capacity but no memory.
---
 src/main/aerospike/as_bytes.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 9a97fb4..7fa641b 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -44,6 +44,15 @@ static inline as_bytes * as_bytes_cons(
 
     if ( value == NULL && size == 0 && capacity > 0 ) {
 	    bytes->value = cf_calloc(capacity, sizeof(uint8_t));
+
+	    if ( !bytes->value ) {
+		    bytes->capacity = 0;
+
+		    if ( free ) {
+			    cf_free(bytes);
+		    }
+		    return NULL;
+	    }
     }
     
 	return bytes;
-- 
2.43.0


From 5205ee2b6fb1d370914204d3bd3b3ea291f2e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 064/107] fix: keep the items of a queue when growing it fails

---
 src/main/aerospike/as_queue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index 4586c92..4bea301 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -93,11 +93,12 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			queue->data = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* data = cf_realloc(queue->data, new_capacity * queue->item_size);
 			
-			if (! queue->data) {
+			if (! data) {
 				return false;
 			}
+			queue->data = data;
 			queue->head = 0;
 			queue->tail = queue->capacity;
 			queue->capacity = new_capacity;
-- 
2.43.0


From e468afa14f0cdceb24b92d7a75caa8b599b62d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 065/107] fix: keep the elements of a cf_queue when growing it
 fails

---
 src/main/citrusleaf/cf_queue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 198ab87..1b53cff 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -134,12 +134,13 @@ cf_queue_resize(cf_queue *q, uint32_t new_sz)
 	// The rare case where the queue is not fragmented, and realloc makes sense
 	// and none of the offsets need to move.
 	if (q->alloc_sz == 0 || 0 == q->read_offset % q->alloc_sz) {
-		q->elements = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
+		uint8_t *elements = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
 
-		if (! q->elements) {
+		if (! elements) {
 			return CF_QUEUE_ERR;
 		}
 
+		q->elements = elements;
 		q->read_offset = 0;
 		q->write_offset = q->alloc_sz;
 	}
-- 
2.43.0


From 58982210da2c200681a86f1e14545dd6075f1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 066/107] fix: terminate a string builder when growing it fails

---
 src/main/aerospike/as_string_builder.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 9fa147f..076d9dc 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -111,13 +111,11 @@ as_string_builder_append(as_string_builder* sb, const char* src)
 		// Optimistic increase of length failed. Roll it back.
 		sb->length--;
 
-		if (sb->resize) {
-			return as_sb_expand(sb, src);
-		}
-		else {
-			*trg = 0;
-			return false;
+		if (sb->resize && as_sb_expand(sb, src)) {
+			return true;
 		}
+		*trg = 0;
+		return false;
 	}
 	*trg = 0;
 	return true;
-- 
2.43.0


From 3c931f7948c98097537192ed6d38abfe83d2105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 067/107] fix: free a new ordered map whose table cannot be
 allocated

---
 src/main/aerospike/as_orderedmap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 01217a0..e722242 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -214,7 +214,12 @@ as_orderedmap_new(uint32_t capacity)
 
 	as_map_cons((as_map*)map, true, 1, &as_orderedmap_map_hooks);
 
-	return as_orderedmap_cons(map, capacity);
+	if (as_orderedmap_cons(map, capacity) == NULL) {
+		cf_free(map);
+		return NULL;
+	}
+
+	return map;
 }
 
 bool
-- 
2.43.0


From bd72bdfbaad5c5092bc14282bf0413735b86bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 068/107] fix: keep the capacity of an ordered map when growing
 it fails

The capacity was doubled before the table was. When the table could not
grow, later inserts wrote past its end.
---
 src/main/aerospike/as_orderedmap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index e722242..5667673 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -301,15 +301,15 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 		// Near end of main table - insert directly.
 
 		if (map->count == map->capacity) {
-			map->capacity *= 2;
-
+			uint32_t capacity = map->capacity * 2;
 			map_entry* table = (map_entry*)cf_realloc(map->table,
-					map->capacity * sizeof(map_entry));
+					capacity * sizeof(map_entry));
 
 			if (table == NULL) {
 				return -1;
 			}
 
+			map->capacity = capacity;
 			map->table = table;
 		}
 
-- 
2.43.0


From 93d064aad9e94cf79911d75964f92d639b7a7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:10 +0000
Subject: [PATCH 069/107] fix: check the allocations of the ordered map hold
 table

---
 src/main/aerospike/as_orderedmap.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 5667673..613a242 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -327,6 +327,14 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	if (map->hold_table == NULL) {
 		map->hold_table = cf_malloc(HOLD_TABLE_CAP * sizeof(map_entry));
 		map->hold_locations = cf_malloc(HOLD_TABLE_CAP * sizeof(uint32_t));
+
+		if (map->hold_table == NULL || map->hold_locations == NULL) {
+			cf_free(map->hold_table);
+			cf_free(map->hold_locations);
+			map->hold_table = NULL;
+			map->hold_locations = NULL;
+			return -1;
+		}
 	}
 
 	uint32_t hold_ix;
-- 
2.43.0


From b93b3586c71c208c5da0024f72c5d32b958d16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 070/107] fix: release what string map setters created when
 they fail

The key, and the value of the typed setters, leaked when the map refused
them. A value that could not be allocated was stored as nil and reported
as success.
---
 src/include/aerospike/as_stringmap.h | 38 ++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/include/aerospike/as_stringmap.h b/src/include/aerospike/as_stringmap.h
index 7b60f8d..119ae7a 100644
--- a/src/include/aerospike/as_stringmap.h
+++ b/src/include/aerospike/as_stringmap.h
@@ -39,7 +39,25 @@ extern "C" {
  */
 static inline int as_stringmap_set(as_map * m, const char * k, as_val * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), v);
+	as_string * key = as_string_new_strdup(k);
+	if ( !key ) return -1;
+
+	int rc = as_util_hook(set, 1, m, (as_val *) key, v);
+	if ( rc != 0 ) as_string_destroy(key);
+	return rc;
+}
+
+/**
+ *	@private
+ *	Set the specified key's value to a value created for this call.
+ */
+static inline int as_stringmap_set_created(as_map * m, const char * k, as_val * v)
+{
+	if ( !v ) return -1;
+
+	int rc = as_stringmap_set(m, k, v);
+	if ( rc != 0 ) as_val_destroy(v);
+	return rc;
 }
 
 /**
@@ -47,7 +65,7 @@ static inline int as_stringmap_set(as_map * m, const char * k, as_val * v)
  */
 static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_integer_new(v));
+	return as_stringmap_set_created(m, k, (as_val *) as_integer_new(v));
 }
 
 /**
@@ -55,7 +73,7 @@ static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v)
  */
 static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_double_new(v));
+	return as_stringmap_set_created(m, k, (as_val *) as_double_new(v));
 }
 
 /**
@@ -63,7 +81,7 @@ static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
  */
 static inline int as_stringmap_set_str(as_map * m, const char * k, const char * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_string_new_strdup(v));
+	return as_stringmap_set_created(m, k, (as_val *) as_string_new_strdup(v));
 }
 
 /**
@@ -71,7 +89,7 @@ static inline int as_stringmap_set_str(as_map * m, const char * k, const char *
  */
 static inline int as_stringmap_set_integer(as_map * m, const char * k, as_integer * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -79,7 +97,7 @@ static inline int as_stringmap_set_integer(as_map * m, const char * k, as_intege
  */
 static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_double * v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 	
 /**
@@ -87,7 +105,7 @@ static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_doub
  */
 static inline int as_stringmap_set_string(as_map * m, const char * k, as_string * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -95,7 +113,7 @@ static inline int as_stringmap_set_string(as_map * m, const char * k, as_string
  */
 static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -103,7 +121,7 @@ static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes *
  */
 static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -111,7 +129,7 @@ static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v)
  */
 static inline int as_stringmap_set_map(as_map * m, const char * k, as_map * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /******************************************************************************
-- 
2.43.0


From 483ce6083cd4846cdf40a45716e8e7b0216b735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 071/107] fix: report an error when maps cannot be iterated for
 comparison

---
 src/main/aerospike/as_msgpack.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index ff583c1..2a20510 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -660,8 +660,10 @@ as_map_cmp(const as_map* map1, const as_map* map2)
 	as_orderedmap_iterator it1;
 	as_orderedmap_iterator it2;
 
-	as_orderedmap_iterator_init(&it1, (const as_orderedmap*)map1);
-	as_orderedmap_iterator_init(&it2, (const as_orderedmap*)map2);
+	if (as_orderedmap_iterator_init(&it1, (const as_orderedmap*)map1) == NULL ||
+			as_orderedmap_iterator_init(&it2, (const as_orderedmap*)map2) == NULL) {
+		return MSGPACK_COMPARE_ERROR;
+	}
 
 	for (uint32_t i = 0; i < sz; i++) {
 		as_pair* p1 = (as_pair*)as_orderedmap_iterator_next(&it1);
-- 
2.43.0


From a05a7dc0f5ac6403cd1cbd1ab1efa452a7a2c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 072/107] fix: keep the buffer of a packer when a new one
 cannot be allocated

The packer forgot its current buffer, which then leaked.
---
 src/main/aerospike/as_msgpack.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 2a20510..011fb0f 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -279,11 +279,14 @@ pack_resize(as_packer *pk, uint32_t sz)
 
 	size_t newcap = (size_t)((sz > (uint32_t)pk->capacity) ? sz : pk->capacity);
 
-	if (! (pk->buffer = (unsigned char *)cf_malloc(newcap))) {
+	unsigned char *buffer = (unsigned char *)cf_malloc(newcap);
+
+	if (! buffer) {
 		cf_free(entry);
 		return -1;
 	}
 
+	pk->buffer = buffer;
 	pk->capacity = (int)newcap;
 	pk->offset = 0;
 
-- 
2.43.0


From 4a47ff13155eaf019e226ce2aac0c624d7033b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 073/107] fix: report failure to allocate unpacked scalars

---
 src/main/aerospike/as_msgpack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 011fb0f..d520a6b 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -942,21 +942,21 @@ static inline int
 unpack_boolean(bool b, as_val **v)
 {
 	*v = (as_val *)as_boolean_new(b);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_integer_val(int64_t i, as_val **v)
 {
 	*v = (as_val *)as_integer_new(i);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_double_val(double d, as_val **v)
 {
 	*v = (as_val *)as_double_new(d);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static int
-- 
2.43.0


From f6b52ee8ef1775d4027aa66329d7e147d369e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 074/107] fix: report failure to allocate unpacked strings

---
 src/main/aerospike/as_msgpack.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index d520a6b..86472dd 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -975,11 +975,29 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 
 	if (type == AS_BYTES_STRING) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val*)as_string_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else if (type == AS_BYTES_GEOJSON) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val *)as_geojson_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else {
 		as_bytes *b;
-- 
2.43.0


From 99585f57ea719afbc7d221fc704e4ec6f78aeec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 075/107] fix: report failure to combine the buffers of a
 serialized value

---
 src/main/aerospike/as_msgpack_serializer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack_serializer.c b/src/main/aerospike/as_msgpack_serializer.c
index 4371f85..82955da 100644
--- a/src/main/aerospike/as_msgpack_serializer.c
+++ b/src/main/aerospike/as_msgpack_serializer.c
@@ -154,7 +154,9 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 		int offset = 0;
 
 		while (p) {
-			memcpy(target + offset, p->buffer, p->length);
+			if (target) {
+				memcpy(target + offset, p->buffer, p->length);
+			}
 			offset += p->length;
 			
 			as_packer_buffer *tmp = p;
@@ -165,11 +167,17 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 			cf_free(tmp);
 		}
 
-		memcpy(target + offset, packer.buffer, packer.offset);
+		if (target) {
+			memcpy(target + offset, packer.buffer, packer.offset);
+		}
 
 		// Free original main buffer.
 		cf_free(packer.buffer);
 
+		if (! target) {
+			return 1;
+		}
+
 		// Transfer new buffer.
 		buff->data = target;
 		buff->size = size;
-- 
2.43.0


From 1723f6f08caa9a17196f684ba982337b36020794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 076/107] fix: report allocation failures when parsing deeply
 nested values

Measuring and comparing values nested more than 256 deep wrote through a
null pointer when a block of parse states could not be allocated.
---
 src/main/aerospike/as_msgpack.c | 38 +++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 86472dd..ab1a8b5 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -121,6 +121,11 @@ static msgpack_parse_memblock *
 msgpack_parse_memblock_create(msgpack_parse_memblock *prev)
 {
 	msgpack_parse_memblock *p = cf_malloc(sizeof(msgpack_parse_memblock));
+
+	if (! p) {
+		return NULL;
+	}
+
 	p->prev = prev;
 	p->count = 0;
 	return p;
@@ -143,6 +148,11 @@ msgpack_parse_memblock_next(msgpack_parse_memblock **block)
 
 	if (ptr->count >= MSGPACK_PARSE_MEMBLOCK_STATE_COUNT) {
 		ptr = msgpack_parse_memblock_create(ptr);
+
+		if (! ptr) {
+			return NULL;
+		}
+
 		*block = ptr;
 	}
 
@@ -1637,6 +1647,11 @@ unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+		if (! block) {
+			return -1;
+		}
+
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 		state->index = 0;
@@ -1676,6 +1691,11 @@ unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+		if (! block) {
+			return -1;
+		}
+
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 		state->index = 0;
@@ -1897,7 +1917,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		if (type == AS_LIST ) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
 			}
 
@@ -1907,7 +1927,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		if (type == AS_MAP) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
 			}
 
@@ -2744,6 +2764,11 @@ msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+		if (! block) {
+			return MSGPACK_COMPARE_ERROR;
+		}
+
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 		if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
@@ -2834,6 +2859,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+		if (! block) {
+			return MSGPACK_COMPARE_ERROR;
+		}
+
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 		if (! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
@@ -3038,7 +3068,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_LIST ) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
@@ -3048,7 +3078,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_MAP) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-- 
2.43.0


From c21b9c1569aef0768fdbbd17b7718c680265108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 077/107] fix: return NULL from as_success_new() and
 as_failure_new() on allocation failure

---
 src/main/aerospike/as_result.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 6c3e1e1..1dbbe8b 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -66,6 +66,7 @@ void as_result_destroy(as_result *r) {
 
 as_result * as_success_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = true;
     r->value = v;
     return(r);
@@ -73,6 +74,7 @@ as_result * as_success_new(as_val * v) {
 
 as_result * as_failure_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = false;
     r->value = v;
     return(r);
-- 
2.43.0


From e774752ef1ccd095c43a8873b55edfd95ed93c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 078/107] fix: return NULL from cf_rc_alloc() on allocation
 failure

---
 src/main/citrusleaf/cf_alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 913a263..94f7cdb 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -96,6 +96,10 @@ cf_rc_alloc(size_t sz)
 {
 	cf_rc_hdr* head = malloc(sizeof(cf_rc_hdr) + sz);
 
+	if (! head) {
+		return NULL;
+	}
+
 	head->count = 1;
 	head->sz = (uint32_t)sz;
 
-- 
2.43.0


From 6209a9ea362f16952748bdb302b166f0eb01c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 079/107] fix: return NULL from as_aerospike_new() on
 allocation failure

---
 src/main/aerospike/as_aerospike.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aerospike/as_aerospike.c b/src/main/aerospike/as_aerospike.c
index a348958..3eb1df8 100644
--- a/src/main/aerospike/as_aerospike.c
+++ b/src/main/aerospike/as_aerospike.c
@@ -33,6 +33,7 @@ as_aerospike * as_aerospike_init(as_aerospike * a, void * s, const as_aerospike_
 as_aerospike * as_aerospike_new(void * s, const as_aerospike_hooks * h)
 {
 	as_aerospike * a = (as_aerospike *) cf_rc_alloc(sizeof(as_aerospike));
+	if (!a) return a;
 	a->is_rcalloc = true;
 	a->source = s;
 	a->hooks = h;
-- 
2.43.0


From 7653c8d9fd34f7c760b0da4818d53730a28cbb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 080/107] fix: return NULL when an integer cannot be rendered
 for lack of memory

---
 src/main/aerospike/as_integer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aerospike/as_integer.c b/src/main/aerospike/as_integer.c
index 2384453..f4da430 100644
--- a/src/main/aerospike/as_integer.c
+++ b/src/main/aerospike/as_integer.c
@@ -65,6 +65,7 @@ char * as_integer_val_tostring(const as_val * v)
 {
 	as_integer * i = (as_integer *) v;
 	char * str = (char *) cf_malloc(sizeof(char) * 32);
+	if (!str) return str;
 	memset(str, 0, 32);
 	sprintf(str, "%" PRId64, i->value);
 	return str;
-- 
2.43.0


From ca5dc97c4f00566e1ef7b09ac0705e6fbb2eee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 081/107] fix: return NULL when a double cannot be rendered for
 lack of memory

---
 src/main/aerospike/as_double.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/aerospike/as_double.c b/src/main/aerospike/as_double.c
index 3c2036d..20436df 100644
--- a/src/main/aerospike/as_double.c
+++ b/src/main/aerospike/as_double.c
@@ -85,6 +85,10 @@ as_double_val_tostring(const as_val * val)
 {
 	as_double* value_ptr = (as_double*)val;
 	char* str = (char*)cf_malloc(sizeof(char) * 64);
+
+	if (! str) {
+		return NULL;
+	}
 	sprintf(str, "%.16g", value_ptr->value);
 	return str;
 }
-- 
2.43.0


From 6b2039688f32fbcabd095af430272e80a2b42d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 082/107] fix: return NULL when a list cannot be rendered for
 lack of memory

---
 src/main/aerospike/as_list.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_list.c b/src/main/aerospike/as_list.c
index 31779d5..dc77d86 100644
--- a/src/main/aerospike/as_list.c
+++ b/src/main/aerospike/as_list.c
@@ -98,7 +98,16 @@ static bool as_list_val_tostring_foreach(as_val * val, void * udata)
 
 	if ( data->pos + len + 2 >= data->cap ) {
 		uint32_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		if ( !buf ) {
+			if ( str != NULL_STR ) {
+				cf_free(str);
+			}
+			cf_free(data->buf);
+			data->buf = NULL;
+			return false;
+		}
+		data->buf = buf;
 		data->cap += adj;
 	}
 
@@ -130,16 +139,23 @@ char * as_list_val_tostring(const as_val * v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if ( !data.buf ) return NULL;
 
 	strcpy(data.buf, "[");
 	data.pos += 1;
 
 	if ( v ) {
 		as_list_foreach((as_list *) v, as_list_val_tostring_foreach, &data);
+		if ( !data.buf ) return NULL;
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+		data.buf = buf;
 		data.cap += 2;
 	}
 
-- 
2.43.0


From 49dda7bbfeae2acae1742b84484f5d6f5171f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 083/107] fix: return NULL when a map cannot be rendered for
 lack of memory

---
 src/main/aerospike/as_map.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index 8cf747a..2474ccd 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -90,7 +90,19 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	if ( data->pos + entlen >= data->cap ) {
 		uint32_t adj = entlen > data->blk ? entlen : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		if ( !buf ) {
+			if (keystr != NULL_STR) {
+				cf_free(keystr);
+			}
+			if (valstr != NULL_STR) {
+				cf_free(valstr);
+			}
+			cf_free(data->buf);
+			data->buf = NULL;
+			return false;
+		}
+		data->buf = buf;
 		memset(data->buf + data->cap, 0, sizeof(char) * adj);
 		data->cap += adj;
 	}
@@ -134,16 +146,23 @@ char * as_map_val_tostring(const as_val* v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if ( !data.buf ) return NULL;
 
 	strcpy(data.buf, "{");
 	data.pos += 1;
 	
 	if ( v ) {
 		as_map_foreach((as_map*) v, as_map_val_tostring_foreach, &data);
+		if ( !data.buf ) return NULL;
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+		data.buf = buf;
 		data.cap += 2;
 	}
 
-- 
2.43.0


From 86db6bc6d14adc15929f454c85d45d8501e7174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:11 +0000
Subject: [PATCH 084/107] fix: retry a failed merge when an ordered map needs
 room

After one failed merge the map refused all further keys far from its end,
even when memory was available again.
---
 src/main/aerospike/as_orderedmap.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 613a242..4d5cfce 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -355,7 +355,12 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	}
 
 	if (map->hold_count == HOLD_TABLE_CAP) {
-		return -1; // previous merge failed
+		// Previous merge failed - try again.
+		if (! as_orderedmap_merge(map)) {
+			return -1;
+		}
+
+		return as_orderedmap_set(map, key, val);
 	}
 
 	memmove(&map->hold_table[hold_ix + 1], &map->hold_table[hold_ix],
@@ -371,7 +376,7 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 
 	if (map->hold_count == HOLD_TABLE_CAP) {
 		as_orderedmap_merge(map);
-		// Ignore merge allocation failure, next insert will fail.
+		// Ignore merge allocation failure, next insert will try again.
 	}
 
 	return 0;
-- 
2.43.0


From ef60ee0f7163c111d757f3c7b31a5cf81f04e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:07 +0000
Subject: [PATCH 085/107] fix: order readers of the single-writer lock after
 the last write

A reader first loads the lock word and then adds itself to the reader count.
A writer can take and release the lock between the two. The add was relaxed,
so the reader could enter without seeing what that writer wrote. Make the add
an acquire operation.
---
 src/include/aerospike/as_atomic_gcc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aerospike/as_atomic_gcc.h b/src/include/aerospike/as_atomic_gcc.h
index 67e5b49..e318eec 100644
--- a/src/include/aerospike/as_atomic_gcc.h
+++ b/src/include/aerospike/as_atomic_gcc.h
@@ -832,7 +832,7 @@ as_swlock_read_lock(as_swlock* rw)
 			as_arch_pause();
 		}
 
-		uint32_t l = as_faa_uint32(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
+		uint32_t l = as_faa_acq(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
 
 		if (l == 0) {
 			break;
-- 
2.43.0


From 66dd021287e776a9ab4b6b1f72d49b948a1be8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:49 +0000
Subject: [PATCH 086/107] fix: pause for the whole time asked for

The number of milliseconds was multiplied by 1000 and handed to usleep(),
whose argument has 32 bits.  Pauses longer than about 71 minutes returned
far too early.  Use nanosleep() with seconds and nanoseconds instead.
---
 src/include/aerospike/as_sleep.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/include/aerospike/as_sleep.h b/src/include/aerospike/as_sleep.h
index b29b8d5..acaece8 100644
--- a/src/include/aerospike/as_sleep.h
+++ b/src/include/aerospike/as_sleep.h
@@ -20,6 +20,26 @@
 #include <windows.h>
 #define as_sleep(_ms) Sleep(_ms)
 #else
-#include <unistd.h>
-#define as_sleep(_ms) usleep((_ms) * 1000)
+#include <stdint.h>
+#include <time.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+/**
+ * Sleep for the given number of milliseconds.
+ */
+static inline void
+as_sleep(uint32_t ms)
+{
+	struct timespec delta;
+	delta.tv_sec = ms / 1000;
+	delta.tv_nsec = (long)(ms % 1000) * 1000 * 1000;
+	nanosleep(&delta, NULL);
+}
+
+#ifdef __cplusplus
+} // end extern "C"
+#endif
 #endif
-- 
2.43.0


From 580d36632d5f2b6a2322d3e1ca8a67fb40d4407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:21 +0000
Subject: [PATCH 087/107] fix: take arguments of atomic macros as whole
 expressions

The casts applied to the first operand of an argument only: storing the
result of a comparison as a bool narrowed its left side to 8 bits, and a
pointer sum was added up as integers.
---
 src/include/aerospike/as_atomic.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/include/aerospike/as_atomic.h b/src/include/aerospike/as_atomic.h
index ea0f62b..b45bd63 100644
--- a/src/include/aerospike/as_atomic.h
+++ b/src/include/aerospike/as_atomic.h
@@ -28,26 +28,26 @@
 
 // double as_load_double(const double* target)
 #define as_load_double(_target) ({ \
-		uint64_t v =  as_load_uint64((const uint64_t*)_target); \
+		uint64_t v =  as_load_uint64((const uint64_t*)(_target)); \
 		*(double*)&v; \
 	})
 
 // float as_load_float(const float* target)
 #define as_load_float(_target) ({ \
-		uint32_t v =  as_load_uint32((const uint32_t*)_target); \
+		uint32_t v =  as_load_uint32((const uint32_t*)(_target)); \
 		*(float*)&v; \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
 // bool as_load_bool(const bool* target)
 #define as_load_bool(_target) ({ \
-		(bool)as_load_uint8((const uint8_t*)_target); \
+		(bool)as_load_uint8((const uint8_t*)(_target)); \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
 // bool as_load_bool_acq(const bool* target)
 #define as_load_bool_acq(_target) ({ \
-		(bool)as_load_uint8_acq((const uint8_t*)_target); \
+		(bool)as_load_uint8_acq((const uint8_t*)(_target)); \
 	})
 
 /******************************************************************************
@@ -57,25 +57,25 @@
 // void as_store_double(double* target, double value)
 #define as_store_double(_target, _value) ({ \
 		double v = _value; \
-		as_store_uint64((uint64_t*)_target, *(uint64_t*)&v); \
+		as_store_uint64((uint64_t*)(_target), *(uint64_t*)&v); \
 	})
 
 // void as_store_float(float* target, float value)
 #define as_store_float(_target, _value) ({ \
 		float v = _value; \
-		as_store_uint32((uint32_t*)_target, *(uint32_t*)&v); \
+		as_store_uint32((uint32_t*)(_target), *(uint32_t*)&v); \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
 // void as_store_bool(bool* target, bool value)
 #define as_store_bool(_target, _value) ({ \
-		as_store_uint8((uint8_t*)_target, (uint8_t)_value); \
+		as_store_uint8((uint8_t*)(_target), (uint8_t)(bool)(_value)); \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
 // void as_store_bool_rls(bool* target, bool value)
 #define as_store_bool_rls(_target, _value) ({ \
-		as_store_uint8_rls((uint8_t*)_target, (uint8_t)_value); \
+		as_store_uint8_rls((uint8_t*)(_target), (uint8_t)(bool)(_value)); \
 	})
 
 /******************************************************************************
@@ -85,20 +85,20 @@
 // Note - this assumes pointers are 8 bytes.
 // void* as_fas_ptr(void** target, void* value)
 #define as_fas_ptr(_target, _value) ({ \
-		(void*)as_fas_uint64((uint64_t*)_target, (uint64_t)_value); \
+		(void*)as_fas_uint64((uint64_t*)(_target), (uint64_t)(_value)); \
 	})
 
 // double as_fas_double(double* target, double value)
 #define as_fas_double(_target, _value) ({ \
 		double nv = _value; \
-		uint64_t ov = as_fas_uint64((uint64_t*)_target, *(uint64_t*)&nv); \
+		uint64_t ov = as_fas_uint64((uint64_t*)(_target), *(uint64_t*)&nv); \
 		*(double*)&ov; \
 	})
 
 // float as_fas_float(float* target, float value)
 #define as_fas_float(_target, _value) ({ \
 		float nv = _value; \
-		uint32_t ov = as_fas_uint32((uint32_t*)_target, *(uint32_t*)&nv); \
+		uint32_t ov = as_fas_uint32((uint32_t*)(_target), *(uint32_t*)&nv); \
 		*(float*)&ov; \
 	})
 
@@ -109,20 +109,20 @@
 // Note - this assumes pointers are 8 bytes.
 // bool as_cas_ptr(void** target, void* old_value, void* new_value)
 #define as_cas_ptr(_target, _old_value, _new_value) ({ \
-		as_cas_uint64((uint64_t*)_target, (uint64_t)_old_value, \
-				(uint64_t)_new_value); \
+		as_cas_uint64((uint64_t*)(_target), (uint64_t)(_old_value), \
+				(uint64_t)(_new_value)); \
 	})
 
 // bool as_cas_double(double* target, double old_value, double new_value)
 #define as_cas_double(_target, _old_value, _new_value) ({ \
 		double ov = _old_value; \
 		double nv = _new_value; \
-		as_cas_uint64((uint64_t*)_target, *(uint64_t*)&ov, *(uint64_t*)&nv); \
+		as_cas_uint64((uint64_t*)(_target), *(uint64_t*)&ov, *(uint64_t*)&nv); \
 	})
 
 // bool as_cas_float(float* target, float old_value, float new_value)
 #define as_cas_float(_target, _old_value, _new_value) ({ \
 		float ov = _old_value; \
 		float nv = _new_value; \
-		as_cas_uint32((uint32_t*)_target, *(uint32_t*)&ov, *(uint32_t*)&nv); \
+		as_cas_uint32((uint32_t*)(_target), *(uint32_t*)&ov, *(uint32_t*)&nv); \
 	})
-- 
2.43.0


From 34a27c8d75e87917dad0b18819d9daab8ff6efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:35 +0000
Subject: [PATCH 088/107] fix: keep local names of atomic macros apart from
 their arguments

A caller's variable named like a local of the macro was not seen: storing
a double from a variable named v stored an undefined value.
---
 src/include/aerospike/as_atomic.h | 40 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/include/aerospike/as_atomic.h b/src/include/aerospike/as_atomic.h
index b45bd63..88676ef 100644
--- a/src/include/aerospike/as_atomic.h
+++ b/src/include/aerospike/as_atomic.h
@@ -28,14 +28,14 @@
 
 // double as_load_double(const double* target)
 #define as_load_double(_target) ({ \
-		uint64_t v =  as_load_uint64((const uint64_t*)(_target)); \
-		*(double*)&v; \
+		uint64_t _as_v =  as_load_uint64((const uint64_t*)(_target)); \
+		*(double*)&_as_v; \
 	})
 
 // float as_load_float(const float* target)
 #define as_load_float(_target) ({ \
-		uint32_t v =  as_load_uint32((const uint32_t*)(_target)); \
-		*(float*)&v; \
+		uint32_t _as_v =  as_load_uint32((const uint32_t*)(_target)); \
+		*(float*)&_as_v; \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
@@ -56,14 +56,14 @@
 
 // void as_store_double(double* target, double value)
 #define as_store_double(_target, _value) ({ \
-		double v = _value; \
-		as_store_uint64((uint64_t*)(_target), *(uint64_t*)&v); \
+		double _as_v = _value; \
+		as_store_uint64((uint64_t*)(_target), *(uint64_t*)&_as_v); \
 	})
 
 // void as_store_float(float* target, float value)
 #define as_store_float(_target, _value) ({ \
-		float v = _value; \
-		as_store_uint32((uint32_t*)(_target), *(uint32_t*)&v); \
+		float _as_v = _value; \
+		as_store_uint32((uint32_t*)(_target), *(uint32_t*)&_as_v); \
 	})
 
 // Note - this assumes bool is implemented as a single byte.
@@ -90,16 +90,16 @@
 
 // double as_fas_double(double* target, double value)
 #define as_fas_double(_target, _value) ({ \
-		double nv = _value; \
-		uint64_t ov = as_fas_uint64((uint64_t*)(_target), *(uint64_t*)&nv); \
-		*(double*)&ov; \
+		double _as_nv = _value; \
+		uint64_t _as_ov = as_fas_uint64((uint64_t*)(_target), *(uint64_t*)&_as_nv); \
+		*(double*)&_as_ov; \
 	})
 
 // float as_fas_float(float* target, float value)
 #define as_fas_float(_target, _value) ({ \
-		float nv = _value; \
-		uint32_t ov = as_fas_uint32((uint32_t*)(_target), *(uint32_t*)&nv); \
-		*(float*)&ov; \
+		float _as_nv = _value; \
+		uint32_t _as_ov = as_fas_uint32((uint32_t*)(_target), *(uint32_t*)&_as_nv); \
+		*(float*)&_as_ov; \
 	})
 
 /******************************************************************************
@@ -115,14 +115,14 @@
 
 // bool as_cas_double(double* target, double old_value, double new_value)
 #define as_cas_double(_target, _old_value, _new_value) ({ \
-		double ov = _old_value; \
-		double nv = _new_value; \
-		as_cas_uint64((uint64_t*)(_target), *(uint64_t*)&ov, *(uint64_t*)&nv); \
+		double _as_ov = _old_value; \
+		double _as_nv = _new_value; \
+		as_cas_uint64((uint64_t*)(_target), *(uint64_t*)&_as_ov, *(uint64_t*)&_as_nv); \
 	})
 
 // bool as_cas_float(float* target, float old_value, float new_value)
 #define as_cas_float(_target, _old_value, _new_value) ({ \
-		float ov = _old_value; \
-		float nv = _new_value; \
-		as_cas_uint32((uint32_t*)(_target), *(uint32_t*)&ov, *(uint32_t*)&nv); \
+		float _as_ov = _old_value; \
+		float _as_nv = _new_value; \
+		as_cas_uint32((uint32_t*)(_target), *(uint32_t*)&_as_ov, *(uint32_t*)&_as_nv); \
 	})
-- 
2.43.0


From 6c7f9bfcb73ab8c2ab64f4be28db168055883c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:04 +0000
Subject: [PATCH 089/107] fix: take arguments of value macros as whole
 expressions

The cast applied to the first operand only, so that a sum naming an
element of an array of values was added up in the size of the generic
value: as_val_destroy(ints + 1) released part of the first integer.
---
 src/include/aerospike/as_pair.h |  2 +-
 src/include/aerospike/as_val.h  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/include/aerospike/as_pair.h b/src/include/aerospike/as_pair.h
index e2760ca..838b757 100644
--- a/src/include/aerospike/as_pair.h
+++ b/src/include/aerospike/as_pair.h
@@ -29,7 +29,7 @@ extern "C" {
  *	MACROS
  ******************************************************************************/
 
-#define pair_new(a,b) as_pair_new((as_val *) a, (as_val *) b)
+#define pair_new(a,b) as_pair_new((as_val *) (a), (as_val *) (b))
 
 /******************************************************************************
  *	TYPES
diff --git a/src/include/aerospike/as_val.h b/src/include/aerospike/as_val.h
index 85fa78e..8bb0e1b 100644
--- a/src/include/aerospike/as_val.h
+++ b/src/include/aerospike/as_val.h
@@ -92,7 +92,7 @@ typedef struct as_val_s {
  *	@return An as_val_t value. If the type is unknown, then it will 
  *	be AS_UNDEF.
  */
-#define as_val_type(__v) (__v ? (as_val_type_e)((as_val *)__v)->type : AS_UNDEF)
+#define as_val_type(__v) ((__v) ? (as_val_type_e)((as_val *)(__v))->type : AS_UNDEF)
 
 /**
  *	Increment the `as_val.count` of a value.
@@ -101,7 +101,7 @@ typedef struct as_val_s {
  *
  *	@return	The value, with it's refcount incremented.
  */
-#define as_val_reserve(__v) ( as_val_val_reserve((as_val *)__v) )
+#define as_val_reserve(__v) ( as_val_val_reserve((as_val *)(__v)) )
 
 /**
  *	Decrement the `as_val.count` of a value. If `as_val.count` reaches 0 (zero) and
@@ -111,7 +111,7 @@ typedef struct as_val_s {
  *
  *	@return The value, if its `as_val.count` > 0. Otherwise NULL.
  */
-#define as_val_destroy(__v) ( as_val_val_destroy((as_val *)__v) )
+#define as_val_destroy(__v) ( as_val_val_destroy((as_val *)(__v)) )
 
 /**
  *	Get the hashcode value for the value.
@@ -120,7 +120,7 @@ typedef struct as_val_s {
  *
  *	@return The hashcode value.
  */
-#define as_val_hashcode(__v) ( as_val_val_hashcode((as_val *)__v) )
+#define as_val_hashcode(__v) ( as_val_val_hashcode((as_val *)(__v)) )
 
 /**
  *	Get the string representation of the value.
@@ -129,7 +129,7 @@ typedef struct as_val_s {
  *
  *	@return The string representation on success. Otherwise NULL.
  */
-#define as_val_tostring(__v) ( as_val_val_tostring((as_val *)__v) )
+#define as_val_tostring(__v) ( as_val_val_tostring((as_val *)(__v)) )
 
 /**
  * Convert as_boolean or as_integer to bool. Otherwise, return false.
-- 
2.43.0


From c77e232acad671a3d20d2fbde94a329db44f09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:16 +0000
Subject: [PATCH 090/107] fix: check the allocation of the list of certificate
 names

---
 src/main/aerospike/ssl_util.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index cb32e74..e9424d4 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -88,6 +88,9 @@ static apr_array_header_t * as_apr_array_make(apr_pool_t * pp,
 	assert(nelts == 0);
 
 	apr_array_header_t * arr = cf_malloc(sizeof(apr_array_header_t));
+	if (! arr) {
+		return NULL;
+	}
 	arr->pool = NULL;
 	arr->elt_size = (int)eltsz;
 	arr->nelts = (int)nelts;
-- 
2.43.0


From 777df6ee464d40a4fa4d44421844d2c3901df625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:16 +0000
Subject: [PATCH 091/107] fix: check the allocation of a certificate name

---
 src/main/aerospike/ssl_util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index e9424d4..c056e36 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -158,8 +158,10 @@ static char *asn1_string_to_utf8(apr_pool_t *p, ASN1_STRING *asn1str)
     len = BIO_pending(bio);
     if (len > 0) {
 		result = cf_malloc(len+1);
-        len = BIO_read(bio, result, len);
-        result[len] = NUL;
+        if (result) {
+            len = BIO_read(bio, result, len);
+            result[len] = NUL;
+        }
     }
     BIO_free(bio);
     return result;
-- 
2.43.0


From c6b617986635ff7862c166f5f4335bde43b01c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:16 +0000
Subject: [PATCH 092/107] fix: keep the list of certificate names when growing
 it fails

A name that cannot be added is left out, so that it does not match.
---
 src/main/aerospike/ssl_util.c | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index c056e36..f673de4 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -111,30 +111,30 @@ static void as_array_destroy(apr_array_header_t * arr)
 	cf_free(arr);
 }
 
-static void * as_apr_array_push(apr_array_header_t * arr)
+// Takes ownership of str, which is left out if there is no memory for it.
+static void as_apr_array_push(apr_array_header_t * arr, char * str)
 {
 	// If we don't have enough space double up.
 	if (arr->nelts == arr->nalloc) {
-		if (arr->nalloc == 0) {
-			arr->nalloc = 16;
-		} else {
-			arr->nalloc *= 2;
+		int nalloc = arr->nalloc == 0 ? 16 : arr->nalloc * 2;
+		size_t newsz = (size_t)nalloc * arr->elt_size;
+		char * elts = cf_realloc(arr->elts, newsz);
+
+		if (! elts) {
+			cf_free(str);
+			return;
 		}
-		size_t newsz = arr->nalloc * arr->elt_size;
-		arr->elts = cf_realloc(arr->elts, newsz);
+		arr->elts = elts;
+		arr->nalloc = nalloc;
 	}
 
-	// Point to the first unused location.
-	void * ptr = arr->elts + (arr->nelts * arr->elt_size);
+	// Use the first unused location.
+	*(char **) (arr->elts + (arr->nelts * arr->elt_size)) = str;
 
 	// We'll have one more element now.
 	++arr->nelts;
-	
-    return ptr;
 }
 
-#define 	APR_ARRAY_PUSH(ary, type)   (*((type *)as_apr_array_push(ary)))
-
 static int as_apr_is_empty_array(const apr_array_header_t * arr)
 {
 	return (arr->nelts == 0);
@@ -178,7 +178,7 @@ static char *modssl_X509_NAME_ENTRY_to_string(apr_pool_t *p, X509_NAME_ENTRY *xs
 static void parse_otherName_value(apr_pool_t *p, ASN1_TYPE *value,
                                   const char *onf, apr_array_header_t **entries)
 {
-    const char *str;
+    char *str;
     int nid = onf ? OBJ_txt2nid(onf) : NID_undef;
 
     if (!value || (nid == NID_undef) || !*entries)
@@ -191,11 +191,11 @@ static void parse_otherName_value(apr_pool_t *p, ASN1_TYPE *value,
      */
     if ((nid == NID_ms_upn) && (value->type == V_ASN1_UTF8STRING) &&
         (str = asn1_string_to_utf8(p, value->value.utf8string))) {
-        APR_ARRAY_PUSH(*entries, const char *) = str;
+        as_apr_array_push(*entries, str);
     } else if (strEQ(onf, "id-on-dnsSRV") &&
                (value->type == V_ASN1_IA5STRING) &&
                (str = asn1_string_to_utf8(p, value->value.ia5string))) {
-        APR_ARRAY_PUSH(*entries, const char *) = str;
+        as_apr_array_push(*entries, str);
     }
 }
 
@@ -225,7 +225,7 @@ static BOOL modssl_X509_getSAN(apr_pool_t *p, X509 *x509, int type, const char *
     if ((names = X509_get_ext_d2i(x509, NID_subject_alt_name, NULL, NULL))) {
         int i, n = 0;
         GENERAL_NAME *name;
-        const char *utf8str;
+        char *utf8str;
 
         for (i = 0; i < sk_GENERAL_NAME_num(names); i++) {
             name = sk_GENERAL_NAME_value(names, i);
@@ -238,7 +238,7 @@ static BOOL modssl_X509_getSAN(apr_pool_t *p, X509 *x509, int type, const char *
             case GEN_DNS:
                 if (((idx == -1) || (n == idx)) &&
                     (utf8str = asn1_string_to_utf8(p, name->d.ia5))) {
-                    APR_ARRAY_PUSH(*entries, const char *) = utf8str;
+                    as_apr_array_push(*entries, utf8str);
                 }
                 n++;
                 break;
@@ -290,8 +290,8 @@ static BOOL getIDs(apr_pool_t *p, X509 *x509, apr_array_header_t **ids)
     /* Second, the CN-IDs (commonName attributes in the subject DN) */
     subj = X509_get_subject_name(x509);
     while ((i = X509_NAME_get_index_by_NID(subj, NID_commonName, i)) != -1) {
-        APR_ARRAY_PUSH(*ids, const char *) = 
-            modssl_X509_NAME_ENTRY_to_string(p, X509_NAME_get_entry(subj, i));
+        as_apr_array_push(*ids,
+            modssl_X509_NAME_ENTRY_to_string(p, X509_NAME_get_entry(subj, i)));
     }
 
     return as_apr_is_empty_array(*ids) ? FALSE : TRUE;
-- 
2.43.0


From 6e45587a2f7113a0591316e43acd36423d0a2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:16 +0000
Subject: [PATCH 093/107] fix: allow a missing certificate in as_tls_match_san

---
 src/main/aerospike/ssl_util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index f673de4..d3d502f 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -395,6 +395,10 @@ bool as_tls_match_name(X509 *x509, const char *name, bool allow_wildcard)
 #if !defined(_MSC_VER)
 
 bool as_tls_match_san(X509 *x509, const char *name) {
+	if (x509 == NULL) {
+		return false;
+	}
+
 	STACK_OF(GENERAL_NAME) *san_names = X509_get_ext_d2i(x509,
 			NID_subject_alt_name, NULL, NULL);
 
-- 
2.43.0


From 7e3221a68471d9d7783c362f13c21a901dbe8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:13 +0000
Subject: [PATCH 094/107] fix: return NULL from as_vector_create() when memory
 runs out

---
 src/main/aerospike/as_vector.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 1a7fdd0..3cb16ba 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -34,7 +34,17 @@ as_vector*
 as_vector_create(uint32_t item_size, uint32_t capacity)
 {
 	as_vector* vector = cf_malloc(sizeof(as_vector));
+
+	if (! vector) {
+		return NULL;
+	}
+
 	as_vector_init(vector, item_size, capacity);
+
+	if (! vector->list) {
+		cf_free(vector);
+		return NULL;
+	}
 	vector->flags = FLAGS_HEAP | FLAGS_CREATED;
 	return vector;
 }
-- 
2.43.0


From fd8301766016a0e241547e2cf2ffdd0b43dc5e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:13 +0000
Subject: [PATCH 095/107] fix: return NULL from as_vector_to_array() when
 memory runs out

---
 src/main/aerospike/as_vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 3cb16ba..bf0c1e0 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -98,6 +98,11 @@ as_vector_to_array(as_vector* vector, uint32_t* size)
 {
 	size_t len = vector->size * vector->item_size;
 	void* array = cf_malloc(len);
+
+	if (! array) {
+		return NULL;
+	}
+
 	memcpy(array, vector->list, len);
 	*size = vector->size;
 	return array;
-- 
2.43.0


From 5fb9f02f26c5080733f39dca7db143e8e0134666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:13 +0000
Subject: [PATCH 096/107] fix: compute sizes and offsets of as_vector in 64
 bits

---
 src/include/aerospike/as_vector.h | 10 +++++-----
 src/main/aerospike/as_vector.c    | 16 ++++++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/include/aerospike/as_vector.h b/src/include/aerospike/as_vector.h
index 7bd909a..d3535b6 100644
--- a/src/include/aerospike/as_vector.h
+++ b/src/include/aerospike/as_vector.h
@@ -111,7 +111,7 @@ as_vector_clear(as_vector* vector)
 static inline void*
 as_vector_get(as_vector* vector, uint32_t index)
 {
-	return (void *) ((uint8_t *)vector->list + (vector->item_size * index));
+	return (void *) ((uint8_t *)vector->list + ((size_t)vector->item_size * index));
 }
 
 /**
@@ -120,7 +120,7 @@ as_vector_get(as_vector* vector, uint32_t index)
 static inline void*
 as_vector_get_ptr(as_vector* vector, uint32_t index)
 {
-	return *(void**) ((uint8_t *)vector->list + (vector->item_size * index));
+	return *(void**) ((uint8_t *)vector->list + ((size_t)vector->item_size * index));
 }
 
 /**
@@ -135,7 +135,7 @@ as_vector_increase_capacity(as_vector* vector);
 static inline void
 as_vector_set(as_vector* vector, uint32_t index, void* value)
 {
-	memcpy((uint8_t *)vector->list + (index * vector->item_size), value, vector->item_size);
+	memcpy((uint8_t *)vector->list + ((size_t)index * vector->item_size), value, vector->item_size);
 }
 
 /**
@@ -147,7 +147,7 @@ as_vector_append(as_vector* vector, void* value)
 	if (vector->size >= vector->capacity) {
 		as_vector_increase_capacity(vector);
 	}
-	memcpy((uint8_t *)vector->list + (vector->size * vector->item_size), value, vector->item_size);
+	memcpy((uint8_t *)vector->list + ((size_t)vector->size * vector->item_size), value, vector->item_size);
 	vector->size++;
 }
 
@@ -173,7 +173,7 @@ as_vector_reserve(as_vector* vector)
 	if (vector->size >= vector->capacity) {
 		as_vector_increase_capacity(vector);
 	}
-	void* item = (uint8_t *)vector->list + (vector->size * vector->item_size);
+	void* item = (uint8_t *)vector->list + ((size_t)vector->size * vector->item_size);
 	memset(item, 0, vector->item_size);
 	vector->size++;
 	return item;
diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index bf0c1e0..7e29ff9 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -23,7 +23,7 @@
 void
 as_vector_init(as_vector* vector, uint32_t item_size, uint32_t capacity)
 {
-	vector->list = cf_malloc(capacity * item_size);
+	vector->list = cf_malloc((size_t)capacity * item_size);
 	vector->capacity = capacity;
 	vector->item_size = item_size;
 	vector->size = 0;
@@ -68,11 +68,11 @@ as_vector_increase_capacity(as_vector* vector)
 
 	if (vector->flags & FLAGS_HEAP) {
 		vector->capacity = capacity;
-		vector->list = cf_realloc(vector->list, vector->capacity * vector->item_size);
+		vector->list = cf_realloc(vector->list, (size_t)vector->capacity * vector->item_size);
 	}
 	else {
-		void* tmp = cf_malloc(capacity * vector->item_size);
-		memcpy(tmp, vector->list, vector->capacity * vector->item_size);
+		void* tmp = cf_malloc((size_t)capacity * vector->item_size);
+		memcpy(tmp, vector->list, (size_t)vector->capacity * vector->item_size);
 		vector->list = tmp;
 		vector->capacity = capacity;
 		vector->flags |= FLAGS_HEAP;
@@ -96,7 +96,7 @@ as_vector_append_unique(as_vector* vector, void* value)
 void*
 as_vector_to_array(as_vector* vector, uint32_t* size)
 {
-	size_t len = vector->size * vector->item_size;
+	size_t len = (size_t)vector->size * vector->item_size;
 	void* array = cf_malloc(len);
 
 	if (! array) {
@@ -115,9 +115,9 @@ as_vector_remove(as_vector* vector, uint32_t index)
 		return false;
 	}
 
-	memmove((uint8_t*)vector->list + (index * vector->item_size),
-		    (uint8_t*)vector->list + ((index + 1) * vector->item_size),
-		    (vector->size - index - 1) * vector->item_size);
+	memmove((uint8_t*)vector->list + ((size_t)index * vector->item_size),
+		    (uint8_t*)vector->list + (((size_t)index + 1) * vector->item_size),
+		    (size_t)(vector->size - index - 1) * vector->item_size);
 
 	vector->size--;
 	return true;
-- 
2.43.0


From 721b58ce9f75c7ffcd16b9013e7ee07d51f5f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:14 +0000
Subject: [PATCH 097/107] fix: compute sizes and offsets of as_queue in 64 bits

---
 src/include/aerospike/as_queue.h |  2 +-
 src/main/aerospike/as_queue.c    | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/include/aerospike/as_queue.h b/src/include/aerospike/as_queue.h
index bba65ac..c8b03e5 100644
--- a/src/include/aerospike/as_queue.h
+++ b/src/include/aerospike/as_queue.h
@@ -155,7 +155,7 @@ as_queue_push_head_limit(as_queue* queue, const void* ptr);
 static inline void*
 as_queue_get(as_queue* queue, uint32_t index)
 {
-	return &queue->data[(index % queue->capacity) * queue->item_size];
+	return &queue->data[(size_t)(index % queue->capacity) * queue->item_size];
 }
 	
 /**
diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index 4bea301..947979d 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -43,17 +43,17 @@ as_queue_unwrap(as_queue* queue)
 static bool
 as_queue_copy(as_queue* queue, uint32_t new_capacity, bool free_old)
 {
-	uint8_t* tmp = cf_malloc(new_capacity * queue->item_size);
+	uint8_t* tmp = cf_malloc((size_t)new_capacity * queue->item_size);
 	
 	if (! tmp) {
 		return false;
 	}
 	
 	// end_sz is used bytes in old queue from insert point to end.
-	size_t end_sz = (queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
+	size_t end_sz = (size_t)(queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
 	
 	memcpy(tmp, as_queue_get(queue, queue->head), end_sz);
-	memcpy(&tmp[end_sz], queue->data, (queue->capacity * queue->item_size) - end_sz);
+	memcpy(&tmp[end_sz], queue->data, ((size_t)queue->capacity * queue->item_size) - end_sz);
 	
 	if (free_old) {
 		cf_free(queue->data);
@@ -93,7 +93,7 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			uint8_t* data = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* data = cf_realloc(queue->data, (size_t)new_capacity * queue->item_size);
 			
 			if (! data) {
 				return false;
@@ -124,7 +124,7 @@ as_queue_increase_capacity(as_queue* queue)
 bool
 as_queue_init(as_queue* queue, uint32_t item_size, uint32_t capacity)
 {
-	queue->data = cf_malloc(capacity * item_size);
+	queue->data = cf_malloc((size_t)capacity * item_size);
 	
 	if (! queue->data) {
 		return false;
-- 
2.43.0


From 9c6b8d01f2772facb7cbcab76064e6a7a87f4605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:07:55 +0000
Subject: [PATCH 098/107] fix: refuse sizes in cf_rc_alloc() that overflow with
 the header

---
 src/main/citrusleaf/cf_alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 94f7cdb..540b96e 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -94,6 +94,10 @@ cf_rc_reserve(void* addr)
 void*
 cf_rc_alloc(size_t sz)
 {
+	if (sz > SIZE_MAX - sizeof(cf_rc_hdr)) {
+		return NULL;
+	}
+
 	cf_rc_hdr* head = malloc(sizeof(cf_rc_hdr) + sz);
 
 	if (! head) {
-- 
2.43.0


From 24472142146610342f70dfaa945dba726d5de235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:28 +0000
Subject: [PATCH 099/107] fix: unpack wildcard and infinity as values

---
 src/main/aerospike/as_msgpack.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index ab1a8b5..3dcac9a 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1048,13 +1048,27 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 	return 0;
 }
 
+/**
+ * Is the next item an ext which is not a value.
+ */
+static inline bool
+unpack_peek_is_metadata(const as_unpacker *pk)
+{
+	if (! as_unpack_peek_is_ext(pk)) {
+		return false;
+	}
+
+	as_val_t type = as_unpack_peek_type(pk);
+	return type != AS_CMP_WILDCARD && type != AS_CMP_INF;
+}
+
 static int
 unpack_list(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	uint8_t flags = 0;
 
 	// Skip ext element key which is only at the start for metadata.
-	if (size != 0 && as_unpack_peek_is_ext(pk)) {
+	if (size != 0 && unpack_peek_is_metadata(pk)) {
 		as_msgpack_ext ext;
 
 		if (as_unpack_ext(pk, &ext) != 0) {
@@ -1178,7 +1192,7 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 	uint8_t flags = 0;
 
 	// Skip ext element key which is only at the start for metadata.
-	if (ele_count != 0 && as_unpack_peek_is_ext(pk)) {
+	if (ele_count != 0 && unpack_peek_is_metadata(pk)) {
 		as_msgpack_ext ext;
 
 		if (as_unpack_ext(pk, &ext) != 0 || as_unpack_size(pk) < 0) {
@@ -1205,7 +1219,7 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 int
 as_unpack_val(as_unpacker *pk, as_val **val)
 {
-	if (as_unpack_peek_is_ext(pk)) {
+	if (unpack_peek_is_metadata(pk)) {
 		*val = NULL;
 		return as_unpack_size(pk) < 0 ? -1 : 0;
 	}
-- 
2.43.0


From 70b7f36a3fff21a4bc5ad90cae261082fe53391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:41:59 +0000
Subject: [PATCH 100/107] fix: refuse to grow a queue whose doubled capacity
 exceeds 32 bits

---
 src/main/aerospike/as_queue.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index 947979d..9167b88 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -70,7 +70,7 @@ as_queue_increase_capacity(as_queue* queue)
 {
 	uint32_t new_capacity = queue->capacity * 2;
 	
-	if (new_capacity == 0) {
+	if (queue->capacity == 0) {
 		// Queue was created without capacity, so there are no items to move.
 		uint8_t* data = cf_malloc(queue->item_size);
 
@@ -88,6 +88,11 @@ as_queue_increase_capacity(as_queue* queue)
 		return true;
 	}
 
+	if (new_capacity < queue->capacity) {
+		// Doubled capacity exceeds 32 bits.
+		return false;
+	}
+
 	if (queue->flags & ITEMS_ON_HEAP) {
 		// Data already allocated on heap.
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
-- 
2.43.0


From c7ff773887b4cb2112ea38e29e9af3ad82b95d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:00 +0000
Subject: [PATCH 101/107] fix: refuse to resize a cf_queue whose doubled size
 exceeds 32 bits

---
 src/main/citrusleaf/cf_queue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 1b53cff..7b38760 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -126,10 +126,14 @@ cf_queue_unlock(cf_queue *q)
 static int
 cf_queue_resize(cf_queue *q, uint32_t new_sz)
 {
-	if (new_sz == 0) {
+	if (q->alloc_sz == 0) {
 		// Queue was created without capacity.
 		new_sz = CF_QUEUE_ALLOCSZ;
 	}
+	else if (new_sz < q->alloc_sz) {
+		// Doubled size exceeds 32 bits.
+		return CF_QUEUE_ERR;
+	}
 
 	// The rare case where the queue is not fragmented, and realloc makes sense
 	// and none of the offsets need to move.
-- 
2.43.0


From edd7617c385674a5a5435eecdfd378bb15290358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:00 +0000
Subject: [PATCH 102/107] fix: refuse string builder appends that exceed a 32
 bit capacity

---
 src/main/aerospike/as_string_builder.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 076d9dc..fdfe217 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -47,12 +47,16 @@ as_string_builder_destroy(as_string_builder* sb)
 }
 
 static bool
-as_sb_increase_capacity(as_string_builder* sb, uint32_t min_capacity)
+as_sb_increase_capacity(as_string_builder* sb, uint64_t min_capacity)
 {
+	if (min_capacity > UINT32_MAX) {
+		return false;
+	}
+
 	uint32_t capacity = sb->capacity * 2;
 
 	if (capacity < min_capacity) {
-		capacity = min_capacity;
+		capacity = (uint32_t)min_capacity;
 	}
 
 	if (sb->free) {
@@ -84,15 +88,15 @@ as_sb_increase_capacity(as_string_builder* sb, uint32_t min_capacity)
 static bool
 as_sb_expand(as_string_builder* sb, const char* src)
 {
-	uint32_t remaining_len = (uint32_t)strlen(src);
-	uint32_t min_capacity = sb->length + remaining_len + 1;
+	size_t remaining_len = strlen(src);
+	uint64_t min_capacity = (uint64_t)sb->length + remaining_len + 1;
 
 	if (! as_sb_increase_capacity(sb, min_capacity)) {
 		return false;
 	}
 
 	memcpy(&sb->data[sb->length], src, remaining_len);
-	sb->length += remaining_len;
+	sb->length += (uint32_t)remaining_len;
 	sb->data[sb->length] = 0;
 	return true;
 }
@@ -172,7 +176,7 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
 		// - 1 extra separator + 1 null byte.
-		uint32_t min_capacity = sb->length + (size * 3) + 2;
+		uint64_t min_capacity = sb->length + ((uint64_t)size * 3) + 2;
 
 		if (min_capacity > sb->capacity) {
 			if (! as_sb_increase_capacity(sb, min_capacity)) {
-- 
2.43.0


From 8fc81df001a15690e2f963faa1ed9cc7e5f5de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:01 +0000
Subject: [PATCH 103/107] fix: check the full length of hex strings before
 decoding them

---
 src/main/aerospike/as_bytes.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 7fa641b..b067f04 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -514,17 +514,16 @@ as_bytes_from_string(uint8_t* bytes, uint32_t bytes_size, const char* str)
 		str += 2;
 	}
 
-	int len = (int)strlen(str);
-	int count = len / 2;
-	int rem = len - (count * 2);
+	size_t len = strlen(str);
+	size_t count = len / 2;
 
 	// Hex string length must be even (2 chars per byte).
-	if (rem != 0) {
+	if (len % 2 != 0) {
 		return -1;
 	}
 
-	// Byte array must have enough space.
-	if ((uint32_t)count > bytes_size) {
+	// Byte array must have enough space, and the count must fit the result.
+	if (count > bytes_size || count > INT32_MAX) {
 		return -1;
 	}
 
@@ -545,5 +544,5 @@ as_bytes_from_string(uint8_t* bytes, uint32_t bytes_size, const char* str)
 		}
 		*bytes++ = (hb << 4) + lb;
 	}
-	return count;
+	return (int)count;
 }
-- 
2.43.0


From 5398e78b52429afba9195b940961a4f47f8a2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:02 +0000
Subject: [PATCH 104/107] fix: size the text of large byte arrays without 32
 bit overflow

---
 src/main/aerospike/as_bytes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index b067f04..6a271ca 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -426,14 +426,14 @@ char * as_bytes_val_tostring(const as_val * v)
 
     uint8_t * 	s = bytes->value;
     uint32_t 	sl = bytes->size;
-    size_t		st = (4 * sl) + 3;
+    size_t		st = (4 * (size_t)sl) + 3;
     char * 		str = (char *) cf_malloc(st);
 
     if ( !str ) {
     	return NULL;
     }
     
-    int j=0;
+    size_t j=0;
     for ( uint32_t i=0; i < sl; i++ ) {
         str[j] = as_hex_chars[(s[i] >> 4) & 0xf];
         str[j+1] = as_hex_chars[s[i] & 0xf];
-- 
2.43.0


From b6688c9e89f53c22f10eb13355ad36d78acf26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:03 +0000
Subject: [PATCH 105/107] fix: refuse ordered map capacities that exceed 32
 bits when rounded up

---
 src/main/aerospike/as_orderedmap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 4d5cfce..0da2d66 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -54,6 +54,10 @@ static const as_iterator_hooks as_orderedmap_iterator_hooks;
 static as_orderedmap*
 as_orderedmap_cons(as_orderedmap* map, uint32_t capacity)
 {
+	if (capacity > UINT32_MAX - 8) {
+		return NULL;
+	}
+
 	map->count = 0;
 	map->capacity = ((capacity + 8) / 8) * 8; // can add 1 without realloc
 
-- 
2.43.0


From 5a7ff6d72f6044ed4d8d73d23faeb621a19a3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:03 +0000
Subject: [PATCH 106/107] fix: encode base64 of large input without signed
 overflow

---
 src/main/citrusleaf/cf_b64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_b64.c b/src/main/citrusleaf/cf_b64.c
index 4178786..67f7008 100644
--- a/src/main/citrusleaf/cf_b64.c
+++ b/src/main/citrusleaf/cf_b64.c
@@ -82,8 +82,8 @@ static const uint8_t base64_decode_a[] = {
 void
 cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out)
 {
-	int i = 0;
-	int j = 0;
+	uint32_t i = 0;
+	uint32_t j = 0;
 
 	while (in_size >= 3) {
 		uint8_t i0 = in[i];
-- 
2.43.0


From 950899c6158cd74ff71c95de5033b1795f21e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:04 +0000
Subject: [PATCH 107/107] fix: render lists and maps whose text exceeds 4 GB

---
 src/main/aerospike/as_list.c | 10 +++++-----
 src/main/aerospike/as_map.c  | 14 +++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/main/aerospike/as_list.c b/src/main/aerospike/as_list.c
index dc77d86..6537997 100644
--- a/src/main/aerospike/as_list.c
+++ b/src/main/aerospike/as_list.c
@@ -76,9 +76,9 @@ uint32_t as_list_val_hashcode(const as_val * v)
 
 typedef struct as_list_val_tostring_data_s {
 	char *		buf;
-	uint32_t	blk;
-	uint32_t	cap;
-	uint32_t	pos;
+	size_t		blk;
+	size_t		cap;
+	size_t		pos;
 	bool		sep;
 } as_list_val_tostring_data;
 
@@ -94,10 +94,10 @@ static bool as_list_val_tostring_foreach(as_val * val, void * udata)
 		str = (char *)NULL_STR;
 	}
 
-	uint32_t len = (uint32_t)strlen(str);
+	size_t len = strlen(str);
 
 	if ( data->pos + len + 2 >= data->cap ) {
-		uint32_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
+		size_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
 		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
 		if ( !buf ) {
 			if ( str != NULL_STR ) {
diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index 2474ccd..7c21e11 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -62,9 +62,9 @@ uint32_t as_map_val_hashcode(const as_val* v) {
 
 typedef struct as_map_val_tostring_data_s {
 	char *		buf;
-	uint32_t	blk;
-	uint32_t	cap;
-	uint32_t	pos;
+	size_t		blk;
+	size_t		cap;
+	size_t		pos;
 	bool		sep;
 } as_map_val_tostring_data;
 
@@ -78,18 +78,18 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 	if (!keystr) {
 		keystr = (char *)NULL_STR;
 	}
-	int keylen = (int)strlen(keystr);
+	size_t keylen = strlen(keystr);
 
 	char * valstr = as_val_tostring(val);
 	if (!valstr) {
 		valstr = (char *)NULL_STR;
 	}
-	int vallen = (int)strlen(valstr);
+	size_t vallen = strlen(valstr);
 
-	uint32_t entlen = keylen + 2 + vallen + 2;
+	size_t entlen = keylen + 2 + vallen + 2;
 
 	if ( data->pos + entlen >= data->cap ) {
-		uint32_t adj = entlen > data->blk ? entlen : data->blk;
+		size_t adj = entlen > data->blk ? entlen : data->blk;
 		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
 		if ( !buf ) {
 			if (keystr != NULL_STR) {
-- 
2.43.0

