// C05: serializing a value and reading it back gives an equal value; the bytes
// are the shortest standard encoding whatever the output is buffered in.
#include "valscen.h"
#include <aerospike/as_rec.h>
#include <citrusleaf/alloc.h>

static uint8_t* expect;
static uint8_t* joined;
#define EXPECT_CAP (40u << 20)

static size_t pack_chain(const rv* r, const as_val* v, uint32_t cap)
{
	as_packer pk;
	memset(&pk, 0, sizeof pk);
	pk.buffer = cf_malloc(cap);
	pk.capacity = cap;
	int rc = as_pack_val(&pk, v);
	MC_CHECK(rc == 0, "pack-failed", "packing into a %u byte buffer that may grow failed for %s", cap, rv_text(r));
	size_t n = 0;
	as_packer_buffer* b = pk.head;
	while (b) {
		as_packer_buffer* next = b->next;
		memcpy(joined + n, b->buffer, b->length);
		n += b->length;
		cf_free(b->buffer);
		cf_free(b);
		b = next;
	}
	memcpy(joined + n, pk.buffer, pk.offset);
	n += pk.offset;
	cf_free(pk.buffer);
	return n;
}

static void check_value(const rv* r)
{
	if (!expect) {
		expect = mc_raw_malloc(EXPECT_CAP);
		joined = mc_raw_malloc(EXPECT_CAP);
	}
	size_t n = rv_encode(r, expect, EXPECT_CAP);
	mc_log("value %s: %zu bytes", rv_text(r), n);
	mc_state(mc_hash(1, expect, n));
	as_val* v = rv_build(r);
	MC_CHECK(rv_same(r, v), "build", "the value built differs from %s", rv_text(r));

	as_serializer ser;
	as_msgpack_init(&ser);
	as_buffer b;
	as_buffer_init(&b);
	mc_step();
	int rc = as_serializer_serialize(&ser, v, &b);
	MC_CHECK(rc == 0, "serialize", "serializing %s failed with %d", rv_text(r), rc);
	MC_CHECK(b.size == n, "encoding-size", "%s encoded in %u bytes, shortest is %zu", rv_text(r), b.size, n);
	if (memcmp(b.data, expect, n) != 0) {
		size_t i = 0;
		while (b.data[i] == expect[i]) i++;
		mc_violation("encoding", "%s: byte %zu is %02x, standard encoding has %02x", rv_text(r), i, b.data[i], expect[i]);
	}
	MC_CHECK(b.capacity >= b.size, "room", "%s: %u bytes in a buffer said to have %u", rv_text(r), b.size, b.capacity);
	memset(b.data + b.size, 0x5a, b.capacity - b.size); // the room it says it has is there
	MC_CHECK(rv_same(r, v), "source-changed", "serializing changed the value %s", rv_text(r));

	// The same whatever it is buffered in.
	static const uint32_t caps[] = { 1, 2, 3, 5, 8, 9, 10, 16, 31, 100, 8191, 8193 };
	int nc = n < 4096 ? (int)(sizeof caps / sizeof *caps) : 0;
	for (int i = 0; i < nc; i++) {
		mc_step();
		size_t m = pack_chain(r, v, caps[i]);
		MC_CHECK(m == n && memcmp(joined, expect, n) == 0, "buffering",
			"%s: output differs when packed through %u byte buffers (%zu bytes, expected %zu)", rv_text(r), caps[i], m, n);
	}

	// Back: exact input, so that any read past the end is seen.
	as_val_destroy(v);
	as_buffer in;
	as_buffer_init(&in);
	in.data = malloc(n);
	memcpy(in.data, b.data, n);
	in.size = in.capacity = (uint32_t)n;
	as_buffer_destroy(&b);
	as_val* back = NULL;
	mc_step();
	rc = as_serializer_deserialize(&ser, &in, &back);
	MC_CHECK(rc == 0 && back, "deserialize", "reading back %s failed with %d", rv_text(r), rc);
	MC_CHECK(rv_same(r, back), "different", "reading back %s gave a different value", rv_text(r));
	// Does not alias the input.
	memset(in.data, 0xc1, n);
	MC_CHECK(rv_same(r, back), "aliased", "the value read back from %s depends on the input buffer", rv_text(r));
	// And serializes the same again.
	as_buffer b2;
	as_buffer_init(&b2);
	rc = as_serializer_serialize(&ser, back, &b2);
	MC_CHECK(rc == 0 && b2.size == n && memcmp(b2.data, expect, n) == 0, "re-encoding", "%s encodes differently after reading back", rv_text(r));
	as_buffer_destroy(&b2);
	as_val_destroy(back);
	as_buffer_destroy(&in);

	// In the middle of other bytes: consumes exactly its own.
	uint8_t* mid = malloc(n + 5);
	memset(mid, 0x7a, n + 5);
	memcpy(mid + 2, expect, n);
	as_unpacker up = { .buffer = mid, .offset = 2, .length = (uint32_t)n + 5 };
	back = NULL;
	mc_step();
	rc = as_unpack_val(&up, &back);
	MC_CHECK(rc == 0 && back && rv_same(r, back), "embedded", "reading %s from the middle of a buffer failed (%d)", rv_text(r), rc);
	MC_CHECK(up.offset == 2 + n, "consumed", "reading %s consumed %u bytes of %zu", rv_text(r), up.offset - 2, n);
	as_val_destroy(back);
	free(mid);
	as_serializer_destroy(&ser);
}

// Records have no encoding.
static void sc_records(void)
{
	static const as_rec_hooks none;
	rv_reset();
	as_val* v = (as_val*)as_rec_new(NULL, &none);
	int depth = mc_choose(4);
	for (int i = 0; i < depth; i++) {
		as_val* other = rv_build(rv_scalar(mc_choose(4)));
		switch (mc_choose(4)) {
		case 0: { as_arraylist* l = as_arraylist_new(2, 1); as_arraylist_append(l, other); as_arraylist_append(l, v); v = (as_val*)l; break; }
		case 1: { as_arraylist* l = as_arraylist_new(2, 1); as_arraylist_append(l, v); as_arraylist_append(l, other); v = (as_val*)l; break; }
		case 2: { as_orderedmap* m = as_orderedmap_new(2); as_orderedmap_set(m, (as_val*)as_integer_new(1), v); as_orderedmap_set(m, (as_val*)as_integer_new(2), other); v = (as_val*)m; break; }
		default: v = (as_val*)(mc_flip() ? as_pair_new(v, other) : as_pair_new(other, v)); break;
		}
	}
	as_serializer ser;
	as_msgpack_init(&ser);
	as_buffer b;
	as_buffer_init(&b);
	mc_step();
	int rc = as_serializer_serialize(&ser, v, &b);
	MC_CHECK(rc != 0, "record", "a record, which has no encoding, was written");
	MC_CHECK(as_serializer_serialize_getsize(&ser, v) == 0, "record", "a record, which has no encoding, has a size");
	mc_state(mc_hash_u64((uint64_t)depth, as_val_type(v)));
	as_buffer_destroy(&b);
	as_serializer_destroy(&ser);
	as_val_destroy(v);
}

const mc_scenario mc_scenarios[] = { VS_SCENARIOS, VS_WIRE_SCENARIOS,
	{ "records", sc_records, 2, "records alone and up to 3 deep in lists, maps and pairs" },
	{ NULL } };
