// RingBuffer: sensor sample FIFO (push/pop) and output history (push + index) against a reference sequence.
#include "vh.h"
#include <EKF/RingBuffer.h>

struct S { uint64_t time_us; uint32_t tag; };

// a0 = capacity, a1 = operation sequence in binary after a leading one (1 push, 0 pop). Reference: the samples kept are the last `capacity` pushed that have not been
// removed; a successful pop returns the newest kept sample with time <= t < time + 0.1 s and removes it and everything older.
HARNESS(rb_history)
{
	int K = 0;

	while ((a1 >> K) > 1) { K++; }

	const int N = a0;
	RingBuffer<S> rb(N);
	S ref[12];		// everything pushed, in order
	int n = 0;
	bool alive[12];

	for (int i = 0; i < 12; i++) { alive[i] = false; ref[i].time_us = 0; ref[i].tag = 0; }

	for (int k = 0; k < K; k++) {
		const bool push = (a1 >> (K - 1 - k)) & 1;
		const uint64_t t = vh_u64("t");
		vh_assume(t >= 100000 && t < (1ull << 62));

		if (push) {
			S s; s.time_us = t; s.tag = 1000 + k;
			rb.push(s);
			ref[k] = s;
			alive[k] = true;
			// forget the sample that no longer fits: count kept samples newer than each
			for (int i = 0; i < k; i++) {
				int newer = 0;

				for (int j = i + 1; j <= k; j++) { newer += alive[j] ? 1 : 0; }

				if (newer >= N) { alive[i] = false; }
			}

		} else {
			S got; got.time_us = 7; got.tag = 7;
			const bool ok = rb.pop_first_older_than(t, &got);
			int hit = -1;

			for (int i = 0; i < k; i++) {
				if (alive[i] && t >= ref[i].time_us && t - ref[i].time_us < 100000) { hit = i; }
			}

			vh_assert(ok == (hit >= 0), "a sample is returned exactly when one is due and not too old");

			uint64_t want_t = 7; uint32_t want_tag = 7;

			for (int i = 0; i < k; i++) { if (i == hit) { want_t = ref[i].time_us; want_tag = ref[i].tag; } }

			vh_assert(got.time_us == want_t, "the newest due sample is returned (time)");
			vh_assert(got.tag == want_tag, "the newest due sample is returned (payload)");

			for (int i = 0; i < k; i++) { if (i <= hit) { alive[i] = false; } }
		}

	}

	vh_cover("history");
}

// a0 = capacity, a1 = pushes: as output history
HARNESS(rb_output)
{
	RingBuffer<S> rb(a0);
	uint64_t t[16];

	for (int k = 0; k < a1; k++) {
		S s; s.time_us = vh_u64("t"); s.tag = k + 1;
		t[k] = s.time_us;
		rb.push(s);
		const int kept = k + 1 < a0 ? k + 1 : a0;
		vh_assert(rb.get_newest().tag == (uint32_t)(k + 1) && rb.get_newest().time_us == s.time_us, "newest is the last pushed");
		vh_assert(rb.get_oldest().tag == (uint32_t)(k + 1 - kept + 1) && rb.get_oldest().time_us == t[k + 1 - kept], "oldest is capacity-1 pushes back");
		vh_assert(rb.get_length() == a0, "length is the capacity");
		// chronological walk from the oldest index
		uint8_t idx = rb.get_oldest_index();

		for (int i = 0; i < kept; i++) {
			vh_assert(rb[idx].tag == (uint32_t)(k + 1 - kept + 1 + i), "walking from the oldest index visits samples in order");
			idx = (idx + 1) % a0;
		}
	}

	vh_cover("pushed");
}

// allocate: symbolic size request after a0 pushes into capacity a1
HARNESS(rb_allocate)
{
	RingBuffer<S> rb(a1);

	for (int k = 0; k < a0; k++) { S s; s.time_us = 1000000 + k; s.tag = k + 1; rb.push(s); }

	// zero is refused and changes nothing
	vh_assert(!rb.allocate(0) && rb.get_length() == a1 && rb.valid(), "allocation of size zero is refused");
	vh_assert(rb.allocate(a1), "same size is accepted");

	if (a0 > 0) { vh_assert(rb.get_newest().tag == (uint32_t)a0, "same size keeps the contents"); }

	vh_assert(rb.allocate(a1 + 1) && rb.get_length() == a1 + 1 && rb.valid(), "resized");
	const uint64_t t = vh_u64("t");
	vh_assume(t >= 100000);
	S got; got.tag = 0;

	if (vh_bool("one")) {
		S s; s.time_us = t; s.tag = 77; rb.push(s);
		vh_assert(rb.get_oldest().tag == 77 && rb.get_newest().tag == 77 && rb[rb.get_oldest_index()].tag == 77, "the first sample after resizing is both oldest and newest");
		return;
	}

	vh_assert(!rb.pop_first_older_than(t, &got) && got.tag == 0, "a resized buffer is empty");

	for (int k = 0; k < a1 + 1; k++) { S s; s.time_us = t + k; s.tag = 100 + k; rb.push(s); }

	vh_assert(rb.get_oldest().tag == 100 && rb.get_newest().tag == (uint32_t)(100 + a1), "all of the new capacity is usable");
	vh_cover("resized");
}
