/* C12: arithmetic of time values against 128-bit integers */
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <futils/timetools.h>

typedef __int128 i128;
#define G 1000000000ll
static const long nsecs[] = { 0, 1, 2, 499, 500, 501, 999, 1000, 1001, 1999,
	2000, 499999, 500000, 500001, 998999, 999000, 999001, 999999, 1000000,
	1000001, 1999999, 2000000, 499999999, 500000000, 500000001, 998999999,
	999000000, 999000001, 999998999, 999999000, 999999001, 999999998,
	999999999 };
#define NN ((int)(sizeof(nsecs) / sizeof(nsecs[0])))
static const int64_t secs[] = { 0, 1, 2, 3, 59, 1000, 2146, 2147, 2148, 4294,
	4295, 2147483, 2147484, 4294967, 4294968, 1000000000, 2147483646,
	2147483647, 2147483648ll, 4294967294ll, 4294967295ll, 4294967296ll,
	9223372036ll, 9223372037ll, 18446744072ll, 253402300799ll, 1ll << 40,
	1ll << 44, 1ll << 53, (1ll << 53) + 1, 1ll << 61,
	-1, -2, -3, -2147483648ll, -2147483649ll, -4294967296ll,
	-4294967297ll, -(1ll << 53) - 1, -(1ll << 61) };
#define NS ((int)(sizeof(secs) / sizeof(secs[0])))

static i128 ns_of(const struct timespec *t)
{
	return (i128)t->tv_sec * G + t->tv_nsec;
}

static int normal(const struct timespec *t)
{
	return t->tv_nsec >= 0 && t->tv_nsec < G;
}

static const char *s128(i128 v)
{
	static char b[4][64];
	static int k;
	char *p = b[k = (k + 1) & 3] + 63;
	unsigned __int128 u = v < 0 ? -(unsigned __int128)v : v;
	*p = 0;
	do {
		*--p = '0' + (int)(u % 10);
		u /= 10;
	} while (u);
	if (v < 0)
		*--p = '-';
	return p;
}

static const char *st(const struct timespec *t)
{
	static char b[4][80];
	static int k;
	char *p = b[k = (k + 1) & 3];
	sprintf(p, "%lld.%09ld", (long long)t->tv_sec, t->tv_nsec);
	return p;
}

static void pair(const struct timespec *a, const struct timespec *b)
{
	struct timespec d = { -77, -77 };
	i128 x = ns_of(a), y = ns_of(b), df = y - x, ad = df < 0 ? -df : df;
	i128 us = ad / 1000;
	int r, c = x > y ? 1 : x < y ? -1 : 0, sign = 99, k;
	uint64_t u = 12345, v;
	mc_case(a->tv_sec, a->tv_nsec, b->tv_sec, b->tv_nsec);
	mc_n_nontrivial++;
	mc_count_transitions(8);
	r = time_timespec_cmp(a, b);
	CHECK(r == c, "cmp(%s, %s) = %d", st(a), st(b), r);
	r = time_timespec_diff(a, b, &d);
	if (df < 0)
		CHECK(r == -EINVAL, "diff(%s, %s) = %d", st(a), st(b), r);
	else
		CHECK(r == 0 && normal(&d) && ns_of(&d) == df,
		      "diff(%s, %s) = %d, %s and not %s ns", st(a), st(b), r,
		      st(&d), s128(df));
	for (k = 0; df >= 0 && k < 2; k++) {
		/* the result over an operand */
		struct timespec o[2] = { *a, *b };
		r = time_timespec_diff(&o[0], &o[1], &o[k]);
		CHECK(r == 0 && normal(&o[k]) && ns_of(&o[k]) == df,
		      "diff(%s, %s) over its %s time = %d, %s", st(a), st(b),
		      k ? "second" : "first", r, st(&o[k]));
	}
	if (us >> 64)
		return;
	for (k = 0; k < 2; k++) {
		u = 12345;
		sign = 99;
		r = time_timespec_diff_us(a, b, &u, k ? NULL : &sign);
		CHECK(r == 0 && u == us, "diff_us(%s, %s) = %d, %lu",
		      st(a), st(b), r, u);
		CHECK(k || (c == 1 ? sign == 1 : c ? sign == -1 :
			    sign >= -1 && sign <= 1), "sign of diff_us(%s, "
		      "%s) is %d", st(a), st(b), sign);
	}
	for (k = -2; k <= 2; k++) {
		if ((i128)us + k < 0 || ((i128)us + k) >> 64)
			continue;
		v = us + k;
		u = 12345;
		r = time_timespec_diff_in_range(a, b, v, k & 1 ? NULL : &u);
		CHECK(r == (c == 0 || (uint64_t)us < v), "diff_in_range(%s, "
		      "%s, %lu) = %d", st(a), st(b), v, r);
		CHECK((k & 1) || u == us, "diff_in_range(%s, %s, %lu): diff "
		      "%lu", st(a), st(b), v, u);
	}
	r = time_timespec_diff_in_range(a, b, UINT64_MAX, &u);
	CHECK(r == (c == 0 || (uint64_t)us < UINT64_MAX) && u == us,
	      "diff_in_range(%s, %s, max) = %d", st(a), st(b), r);
	r = time_timespec_diff_in_range(a, b, 0, NULL);
	CHECK(r == (c == 0), "diff_in_range(%s, %s, 0) = %d", st(a), st(b), r);
}

static void pairs(void *arg)
{
	int i = (int)(intptr_t)arg, j, k, l;
	struct timespec a, b;
	for (j = 0; j < NN; j++)
		for (k = 0; k < NS; k++)
			for (l = 0; l < NN; l++) {
				a.tv_sec = secs[i];
				a.tv_nsec = nsecs[j];
				b.tv_sec = secs[k];
				b.tv_nsec = nsecs[l];
				pair(&a, &b);
				/* and neighbours of a */
				b.tv_sec = secs[i] + (k % 7) - 3;
				pair(&a, &b);
			}
	mc_outcome(i);
	mc_sample("all pairs with %ld s", secs[i]);
}

static void add(const struct timespec *t, int64_t d)
{
	struct timespec r = { -77, -77 }, c = *t;
	i128 want = ns_of(t) + d;
	int e;
	mc_case(t->tv_sec, t->tv_nsec, d, 1);
	mc_n_nontrivial++;
	mc_count_transitions(2);
	e = time_timespec_add_ns(&c, d, &r);
	CHECK(e == 0 && normal(&r) && ns_of(&r) == want, "%s + %ld ns = %s "
	      "(%d) and not %s ns", st(t), d, st(&r), e, s128(want));
	CHECK(!memcmp(&c, t, sizeof(c)), "the source of the addition was "
	      "changed");
	e = time_timespec_add_ns(&c, d, &c);
	CHECK(e == 0 && normal(&c) && ns_of(&c) == want, "%s + %ld ns over "
	      "the time itself = %s (%d)", st(t), d, st(&c), e);
	c = *t;
	r.tv_sec = r.tv_nsec = -77;
	want = ns_of(t) + (i128)d * 1000;
	e = time_timespec_add_us(&c, d, &r);
	CHECK(e == 0 && normal(&r) && ns_of(&r) == want, "%s + %ld us = %s "
	      "(%d) and not %s ns", st(t), d, st(&r), e, s128(want));
	CHECK(!memcmp(&c, t, sizeof(c)), "the source of the addition was "
	      "changed");
	e = time_timespec_add_us(&c, d, &c);
	CHECK(e == 0 && normal(&c) && ns_of(&c) == want, "%s + %ld us over "
	      "the time itself = %s (%d)", st(t), d, st(&c), e);
}

static void adds(void *arg)
{
	int i = (int)(intptr_t)arg, j, k, l, s, m;
	struct timespec t;
	static const int64_t mult[] = { G, 1000000 };
	for (j = 0; j < NN; j++)
		for (k = 0; k < NS; k++)
			for (l = 0; l < NN; l++)
				for (s = -1; s <= 1; s += 2)
					for (m = 0; m < 2; m++) {
						i128 d = (i128)secs[k] *
							mult[m] + nsecs[l];
						int64_t v = (int64_t)d;
						if (v != d)
							continue;
						t.tv_sec = secs[i];
						t.tv_nsec = nsecs[j];
						add(&t, s * v);
						/* up to the next second */
						if (!k)
							add(&t, s * (G -
							    nsecs[j]) +
							    nsecs[l] % 5 - 2);
					}
	for (j = 0; j < NN; j++)
		for (k = 0; k < 130; k++) {
			int64_t v = k < 65 ? (k == 64 ? INT64_MAX :
					      k == 63 ? INT64_MIN : 1ll << k) :
				-(1ll << (k % 63)) + k % 3;
			t.tv_sec = secs[i];
			t.tv_nsec = nsecs[j];
			add(&t, v);
			if (v != INT64_MIN)
				add(&t, v - 1);
			if (v != INT64_MAX)
				add(&t, v + 1);
		}
	mc_outcome(1000 + i);
	mc_sample("all additions to %ld s", secs[i]);
}

static void conv(int64_t s, long n)
{
	struct timespec t = { s, n }, back;
	struct timeval tv;
	i128 v = ns_of(&t);
	uint64_t ns = 5, us = 5, ms = 5;
	uint32_t m32 = 5;
	int r1, r2, r3;
	mc_case(s, n, 2, 2);
	mc_n_nontrivial++;
	mc_count_transitions(8);
	r1 = time_timespec_to_ns(&t, &ns);
	r2 = time_timespec_to_us(&t, &us);
	r3 = time_timespec_to_ms(&t, &ms);
	CHECK(r1 == 0 && r2 == 0 && r3 == 0, "conversions of %s: %d %d %d",
	      st(&t), r1, r2, r3);
	if (!(v >> 64)) {
		CHECK(ns == v, "%s to ns: %lu", st(&t), ns);
		memset(&back, 0x55, sizeof(back));
		r1 = time_ns_to_timespec(&ns, &back);
		CHECK(r1 == 0 && normal(&back) && ns_of(&back) == v,
		      "%lu ns to timespec: %d, %s", ns, r1, st(&back));
	}
	if (!(v / 1000 >> 64)) {
		CHECK(us == v / 1000, "%s to us: %lu", st(&t), us);
		memset(&back, 0x55, sizeof(back));
		r1 = time_us_to_timespec(&us, &back);
		CHECK(r1 == 0 && normal(&back) &&
		      ns_of(&back) == v / 1000 * 1000, "%lu us to timespec: "
		      "%d, %s", us, r1, st(&back));
	}
	if (!(v / 1000000 >> 64)) {
		CHECK(ms == v / 1000000, "%s to ms: %lu", st(&t), ms);
		memset(&back, 0x55, sizeof(back));
		r1 = time_ms_to_timespec(&ms, &back);
		CHECK(r1 == 0 && normal(&back) &&
		      ns_of(&back) == v / 1000000 * 1000000, "%lu ms to "
		      "timespec: %d, %s", ms, r1, st(&back));
	}
	tv.tv_sec = s;
	tv.tv_usec = n / 1000;
	memset(&back, 0x55, sizeof(back));
	r1 = time_timeval_to_timespec(&tv, &back);
	CHECK(r1 == 0 && back.tv_sec == s && back.tv_nsec == n / 1000 * 1000,
	      "timeval %ld.%06ld to timespec: %d, %s", s, (long)tv.tv_usec, r1,
	      st(&back));
	/* 32 bits: the low ones */
	r1 = time_timeval_to_ms(&tv, &m32);
	CHECK(r1 == 0 && m32 == (uint32_t)(v / 1000000), "timeval %ld.%06ld "
	      "to ms: %d, %u", s, (long)tv.tv_usec, r1, m32);
}

/* every nanosecond around each micro and millisecond of a second */
static void convs(void *arg)
{
	int k = (int)(intptr_t)arg, i, step = mc_thorough ? 1 : 7;
	long n;
	int64_t s;
	if (k < 8) {
		for (n = k * 125000l; n < (k + 1) * 125000l; n++)
			for (i = -1; i <= 1; i++)
				if (n * 1000 + i >= 0 && n * 1000 + i < G)
					conv(n % 97 ? n % 5000 :
					     secs[n % 31], n * 1000 + i);
	} else if (k == 8) {
		for (i = 0; i < NS; i++)
			for (n = 0; n < NN; n++)
				if (secs[i] >= 0)
					conv(secs[i], nsecs[n]);
		for (i = 0; i < 62; i++)
			for (s = -3; s <= 3; s++)
				for (n = 0; n < NN; n++)
					if ((1ll << i) + s >= 0)
						conv((1ll << i) + s,
						     nsecs[n]);
	} else {
		for (s = k - 9; s < 1000000; s += step * 8)
			conv(s * 4295, nsecs[s % NN]);
	}
	mc_outcome(2000 + k);
}

/* unsigned values which are not images of a timespec */
static void unsig(void *arg)
{
	static const uint64_t unit[3] = { 1, 1000, 1000000 };
	int i, k, u, r;
	(void)arg;
	for (i = 0; i <= 64; i++)
		for (k = -2000; k <= 2000; k++) {
			uint64_t v = (i == 64 ? 0 : 1ull << i) + k;
			for (u = 0; u < 3; u++) {
				struct timespec t = { -7, -7 };
				uint64_t back = 7;
				i128 want = (i128)v * unit[u];
				mc_case(v, u, 3, 0);
				mc_n_nontrivial++;
				mc_count_transitions(2);
				r = u == 0 ? time_ns_to_timespec(&v, &t) :
					u == 1 ? time_us_to_timespec(&v, &t) :
					time_ms_to_timespec(&v, &t);
				CHECK(r == 0 && normal(&t) && ns_of(&t) ==
				      want, "%lu (unit %lu ns) to timespec: "
				      "%d, %s", v, unit[u], r, st(&t));
				r = u == 0 ? time_timespec_to_ns(&t, &back) :
					u == 1 ? time_timespec_to_us(&t, &back)
					: time_timespec_to_ms(&t, &back);
				CHECK(r == 0 && back == v, "%lu (unit %lu ns) "
				      "to timespec and back: %lu", v, unit[u],
				      back);
			}
		}
	mc_outcome(3000);
}

static void nulls(void *arg)
{
	struct timespec a = { 1, 2 }, b = { 1, 5 }, d;
	struct timeval tv = { 1, 2 };
	uint64_t u = 3;
	uint32_t m = 4;
	int sign;
	(void)arg;
	vk_reset();
#define BAD(x) CHECK((x) == -EINVAL, "%s is not refused", #x)
	BAD(time_timespec_diff(NULL, &b, &d));
	BAD(time_timespec_diff(&a, NULL, &d));
	BAD(time_timespec_diff(&a, &b, NULL));
	BAD(time_timespec_diff(NULL, NULL, NULL));
	BAD(time_timespec_diff_us(NULL, &b, &u, &sign));
	BAD(time_timespec_diff_us(&a, NULL, &u, &sign));
	BAD(time_timespec_diff_us(&a, &b, NULL, &sign));
	BAD(time_timespec_diff_us(&b, &a, NULL, &sign));
	BAD(time_timespec_diff_us(NULL, NULL, &u, NULL));
	BAD(time_timespec_to_ns(NULL, &u));
	BAD(time_timespec_to_ns(&a, NULL));
	BAD(time_timespec_to_us(NULL, &u));
	BAD(time_timespec_to_us(&a, NULL));
	BAD(time_timespec_to_ms(NULL, &u));
	BAD(time_timespec_to_ms(&a, NULL));
	BAD(time_ns_to_timespec(NULL, &a));
	BAD(time_ns_to_timespec(&u, NULL));
	BAD(time_us_to_timespec(NULL, &a));
	BAD(time_us_to_timespec(&u, NULL));
	BAD(time_ms_to_timespec(NULL, &a));
	BAD(time_ms_to_timespec(&u, NULL));
	BAD(time_timespec_add_ns(NULL, 1, &a));
	BAD(time_timespec_add_ns(&a, 1, NULL));
	BAD(time_timespec_add_us(NULL, 1, &a));
	BAD(time_timespec_add_us(&a, 1, NULL));
	BAD(time_timeval_to_timespec(NULL, &a));
	BAD(time_timeval_to_timespec(&tv, NULL));
	BAD(time_timeval_to_ms(NULL, &m));
	BAD(time_timeval_to_ms(&tv, NULL));
	BAD(time_timespec_diff_now(NULL, &d));
	BAD(time_timespec_diff_now(&a, NULL));
	BAD(time_monotonic_to_realtime_us(1, NULL));
	BAD(time_monotonic_to_realtime_ms(1, NULL));
	CHECK(time_timespec_cmp(NULL, &a) == 0 &&
	      time_timespec_cmp(&a, NULL) == 0 &&
	      time_timespec_cmp(NULL, NULL) == 0, "cmp of null");
	CHECK(time_timespec_diff_in_range(NULL, &a, 9, &u) == 0 &&
	      time_timespec_diff_in_range(&a, NULL, 9, &u) == 0 &&
	      time_timespec_diff_in_range(NULL, NULL, 9, &u) == 0,
	      "diff_in_range of null");
	mc_outcome(4000);
}

int main(int argc, char **argv)
{
	int i;
	static char nm[60];
	mc_init(argc, argv);
	mc_explore("nulls", nulls, NULL);
	mc_explore("unsigned", unsig, NULL);
	for (i = 0; i < NS; i++) {
		sprintf(nm, "pairs/%ld", secs[i]);
		mc_explore(nm, pairs, (void *)(intptr_t)i);
		sprintf(nm, "adds/%ld", secs[i]);
		mc_explore(nm, adds, (void *)(intptr_t)i);
	}
	for (i = 0; i < 17; i++) {
		sprintf(nm, "convs/%d", i);
		mc_explore(nm, convs, (void *)(intptr_t)i);
	}
	return mc_end();
}
