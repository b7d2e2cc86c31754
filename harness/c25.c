/* C25: clocks, sleeps and conversion to real time */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <futils/systimetools.h>
#include <futils/timetools.h>

#define S 1000000000ll
#define US 1000ll
#define MS 1000000ll
typedef __int128 i128;

/* time elapses before each reading */
static int64_t adv[4];
static int readings;
static void on_clock(int clk)
{
	vk_advance(adv[readings < 3 ? readings : 3]);
	readings++;
}

static void set_clocks(int64_t mono, int64_t real, int64_t a0, int64_t a1,
		       int64_t a2)
{
	vk_mono_ns = mono;
	vk_real_ns = real;
	adv[0] = a0;
	adv[1] = a1;
	adv[2] = a2;
	adv[3] = 0;
	readings = 0;
	vk_clock_hook = on_clock;
}

static int64_t ns_of(const struct timespec *t)
{
	return t->tv_sec * S + t->tv_nsec;
}

/* boundary instants in ns */
static int64_t T[200];
static int nT;
static void mk_times(void)
{
	static const int64_t secs[] = { 0, 1, 2, 59, 999, 1000, 1001, 4294,
		4295, 86399, 86400, 0x7fffffff, 0x80000000ll, 0xffffffffll,
		0x100000000ll, 1700000000, 946684799, 8589934591ll, 9000000000ll,
		2147483, 4294967, 4294968 };
	static const int64_t ns[] = { 0, 1, 499, 500, 999, 1000, 499999, 500000,
		999999, 1000000, 123456789, 999999999 };
	int i, k;
	for (i = 0; i < 22; i++)
		for (k = 0; k < 12; k++)
			if (k % 4 == i % 4 || i < 2 || k == 11)
				if (nT < 200)
					T[nT++] = secs[i] * S + ns[k];
}

static void s_read(void *arg)
{
	int i, k;
	for (i = 0; i < nT; i++)
		for (k = 0; k < nT; k++) {
			struct timespec t = { -7, -7 };
			int r;
			set_clocks(T[i], T[k], 0, 0, 0);
			mc_case(T[i], T[k], 0, 0);
			mc_count_transitions(2);
			r = time_get_monotonic(&t);
			CHECK(r == 0 && ns_of(&t) == T[i] && t.tv_nsec >= 0 &&
			      t.tv_nsec < S, "time_get_monotonic returns %d and "
			      "%ld.%09ld at %lld", r, t.tv_sec, t.tv_nsec,
			      (long long)T[i]);
			r = time_get_realtime(&t);
			CHECK(r == 0 && ns_of(&t) == T[k] && t.tv_nsec >= 0 &&
			      t.tv_nsec < S, "time_get_realtime returns %d and "
			      "%ld.%09ld at %lld", r, t.tv_sec, t.tv_nsec,
			      (long long)T[k]);
			mc_n_nontrivial += 2;
		}
}

/* elapsed time since an instant of the past */
static void s_elapsed(void *arg)
{
	static const int64_t a[] = { 0, 1, 999, 1000000, 1500000000 };
	int i, k, j;
	for (i = 0; i < nT; i++)
		for (k = 0; k < nT; k++)
			for (j = 0; j < 5; j++) {
				struct timespec v, d = { -7, -7 };
				int64_t e;
				int r;
				if (T[k] > T[i])
					continue;
				v.tv_sec = T[k] / S;
				v.tv_nsec = T[k] % S;
				set_clocks(T[i], 12345, a[j], a[j], 0);
				mc_case(T[i], T[k], a[j], 1);
				mc_count_transitions(1);
				r = time_timespec_diff_now(&v, &d);
				e = ns_of(&d);
				CHECK(r == 0 && e >= T[i] - T[k] && e <= vk_mono_ns
				      - T[k] && d.tv_nsec >= 0 && d.tv_nsec < S
				      && d.tv_sec >= 0, "elapsed since %lld at "
				      "%lld to %lld: %d, %ld.%09ld",
				      (long long)T[k], (long long)T[i],
				      (long long)vk_mono_ns, r, d.tv_sec,
				      d.tv_nsec);
				if (readings == 1)
					CHECK(e == vk_mono_ns - T[k], "elapsed "
					      "is not exact");
				mc_n_nontrivial++;
			}
}

/* ---- sleeps ---- */
static int64_t slept;
static int interruptions, choice_sleep;
static int on_sleep(const struct timespec *req, struct timespec *rem)
{
	int64_t ns = ns_of(req);
	int k = choice_sleep && interruptions < 3 ? mc_choose(3, "sleep") : 0;
	if (k) {
		int64_t part = k == 1 ? 0 : ns / 3;
		interruptions++;
		slept += part;
		vk_advance(part);
		if (rem) {
			rem->tv_sec = (ns - part) / S;
			rem->tv_nsec = (ns - part) % S;
		}
		mc_log("interrupted after %lld ns", (long long)part);
		errno = EINTR;
		return -1;
	}
	slept += ns;
	vk_advance(ns);
	return 0;
}

static void one_sleep(uint32_t ms)
{
	int64_t want = ms * MS;
	int r;
	slept = 0;
	interruptions = 0;
	vk_sleep_hook = on_sleep;
	mc_count_transitions(1);
	r = time_msleep(ms);
	mc_n_nontrivial++;
	if (r == 0)
		CHECK(slept >= want, "time_msleep(%u) returns after %lld ns", ms,
		      (long long)slept);
	else
		CHECK(interruptions && r == -EINTR, "time_msleep(%u) returns %d",
		      ms, r);
	/* the kernel sleeps enough: not one more slice than asked */
	CHECK(slept <= want + MS, "time_msleep(%u) sleeps for %lld ns", ms,
	      (long long)slept);
}

static void s_sleep(void *arg)
{
	int part = *(int *)arg;
	uint64_t ms;
	int k, d;
	choice_sleep = 0;
	set_clocks(S, S, 0, 0, 0);
	if (part < 4) {
		for (ms = part * 20000; ms < (part + 1) * 20000u; ms++) {
			mc_case(ms, 0, 0, 2);
			one_sleep(ms);
		}
		return;
	}
	for (k = 0; k <= 32; k++)
		for (d = -2000; d <= 2000; d++) {
			mc_case(k, d, 0, 3);
			one_sleep((uint32_t)((1ull << k) + d));
		}
	for (ms = 0; ms <= UINT32_MAX; ms += mc_thorough ? 997 : 19997) {
		mc_case(ms, 0, 0, 4);
		one_sleep(ms);
	}
	for (k = 1; k <= 4; k++)	/* products by 10^3, 10^6 which wrap */
		for (d = -3; d <= 3; d++) {
			mc_case(k, d, 0, 5);
			one_sleep(4294967u * k + d);
			one_sleep(2147483u * k + d);
			one_sleep(4294u * k + d);
			one_sleep(1000000000u * k + d);
		}
}

static void s_interrupted(void *arg)
{
	static const uint32_t ms[] = { 0, 1, 2, 999, 1000, 1001, 3600000,
		0x7fffffff, 0x80000000, 0xffffffff };
	int k = mc_choose(10, "length");
	choice_sleep = 1;
	set_clocks(S, S, 0, 0, 0);
	mc_case(k, 0, 0, 6);
	one_sleep(ms[k]);
	mc_outcome(interruptions);
}

/* ---- conversion ---- */
static void convert(i128 mt_us, int64_t mono, int64_t real, int64_t a0,
		    int64_t a1, int64_t a2)
{
	i128 off = (i128)real - mono, want, err, el = (i128)a0 + a1 + a2;
	uint64_t out = 0x5555;
	int r, last;
	set_clocks(mono, real, a0, a1, a2);
	want = mt_us * 1000 + off;	/* ns */
	/* too close to 1970: an estimate which is right up to the tolerance
	   would be before it */
	if (want < el + 2 * MS || mt_us < 0)
		return;
	mc_case(mt_us, mono, real, a0 + a1 * 3 + a2 * 7);
	mc_count_transitions(1);
	r = time_monotonic_to_realtime_us((uint64_t)mt_us, &out);
	CHECK(r == 0, "the conversion returns %d", r);
	last = readings;
	/* what elapsed before the first reading does not matter */
	el = last >= 3 ? (i128)a1 + a2 : el;
	err = (i128)out * 1000 - want;
	mc_n_nontrivial++;
	CHECK(err <= el + 2 * US && err >= -(el + 2 * US), "%llu us is %llu in "
	      "real time with monotonic %lld, real %lld, %lld and %lld ns "
	      "elapsing: error of %lld ns", (unsigned long long)mt_us,
	      (unsigned long long)out, (long long)mono, (long long)real,
	      (long long)a1, (long long)a2, (long long)err);
	/* in milliseconds */
	if (mt_us % 1000)
		return;
	set_clocks(mono, real, a0, a1, a2);
	out = 0x5555;
	r = time_monotonic_to_realtime_ms((uint64_t)(mt_us / 1000), &out);
	CHECK(r == 0, "the conversion in ms returns %d", r);
	err = (i128)out * 1000000 - want;
	mc_count_transitions(1);
	mc_n_nontrivial++;
	CHECK(err <= el + MS / 2 + 2 * US && err >= -(el + MS / 2 + 2 * US),
	      "%llu ms is %llu in real time with monotonic %lld, real %lld, %lld "
	      "and %lld ns elapsing: error of %lld ns",
	      (unsigned long long)(mt_us / 1000), (unsigned long long)out,
	      (long long)mono, (long long)real, (long long)a1, (long long)a2,
	      (long long)err);
}

static void s_convert(void *arg)
{
	static const int64_t delta[] = { 0, 1, 2, 499, 500, 999, 1000, 1001,
		500000, 999999, 1000000, 60000000, 3600000000ll, 86400000000ll,
		4294967295ll, 4294967296ll, 4294967297ll, 2147483647ll,
		2147483648ll, 31536000000000ll };
	static const int64_t a[][3] = { { 0, 0, 0 }, { 0, 1, 1 }, { 3, 999, 0 },
		{ 0, 0, 1000 }, { 7, 1500, 2500 }, { 0, 1000000, 0 },
		{ 0, 0, 1000000 }, { 5000000000ll, 0, 0 }, { 0, 999, 500000 },
		{ 1, 3000000000ll, 7 } };
	int part = *(int *)arg, i, k, d, e, s;
	for (i = part; i < nT; i += 8)
		for (k = 0; k < nT; k += mc_thorough ? 1 : 2)
			for (d = 0; d < 20; d++)
				for (s = -1; s <= 1; s += 2)
					for (e = 0; e < 10; e++) {
						i128 now = T[i] / 1000, ms;
						if (e && !mc_thorough &&
						    (i + k + d + e) % 3)
							continue;
						convert(now + s * delta[d], T[i],
							T[k], a[e][0], a[e][1],
							a[e][2]);
						ms = (now + s * delta[d] * 1000) /
							1000 * 1000;
						convert(ms, T[i], T[k], a[e][0],
							a[e][1], a[e][2]);
					}
	mc_sample("monotonic instants on both sides of now by %d distances, "
		  "%d clocks, 10 timings", 20, nT);
}

/* every microsecond of two milliseconds of each clock */
static void s_fine(void *arg)
{
	int64_t m, r;
	for (m = 0; m < 2000000; m += 10007)
		for (r = 0; r < 2000000; r += 9973)
			convert(5000000 + (m * 7 + r) % 3000, 7 * S + m,
				1700000000 * S + r, 0, m % 3000, r % 2000);
}

/* ---- wall clock ---- */
static int64_t set_s, set_ns;
static int sets, set_fail;
static int on_set(const struct timespec *ts)
{
	sets++;
	set_s = ts->tv_sec;
	set_ns = ts->tv_nsec;
	if (set_fail) {
		errno = set_fail;
		return -1;
	}
	if (ts->tv_sec < 0) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}

static void s_set(void *arg)
{
	static const int32_t offs[] = { 0, 3600, -3600, 1, -1, 50400, -43200,
		INT32_MAX, INT32_MIN };
	static const int errs[] = { EPERM, EINVAL, EFAULT };
	int i, k, f, r;
	for (i = 0; i < nT; i++)
		for (k = 0; k < 9; k++)
			for (f = 0; f <= 3; f++) {
				set_clocks(S, S, 0, 0, 0);
				vk_settime_hook = on_set;
				set_fail = f ? errs[f - 1] : 0;
				sets = 0;
				mc_case(T[i] / S, offs[k], f, 7);
				mc_count_transitions(1);
				mc_n_nontrivial++;
				r = time_local_set(T[i] / S, offs[k]);
				if (f) {
					CHECK(r == -set_fail, "a refusal of the "
					      "kernel (%d) gives %d", set_fail, r);
					continue;
				}
				CHECK(r == 0 && sets >= 1, "time_local_set(%lld) "
				      "returns %d and the clock was set %d times",
				      (long long)(T[i] / S), r, sets);
				CHECK(set_s == T[i] / S && set_ns == 0, "the clock "
				      "is set to %lld.%09lld and not %lld",
				      (long long)set_s, (long long)set_ns,
				      (long long)(T[i] / S));
			}
	vk_settime_hook = NULL;
}

static void get_one(int64_t real, int64_t a0)
{
	uint64_t s = 0x55, s2 = 0x55;
	uint16_t ms = 0x5555;
	int32_t off = 0x5555;
	int v;
	for (v = 0; v < 6; v++) {
		int64_t got, lo = real, hi;
		int r;
		set_clocks(S, real, a0, a0, a0);
		s = s2 = 0x55;
		ms = 0x5555;
		off = 0x5555;
		mc_count_transitions(1);
		r = v == 0 ? time_local_ms_get(&s, &ms, &off) : v == 1 ?
			time_local_ms_get(&s, &ms, NULL) : v == 2 ?
			time_local_ms_get(&s, NULL, NULL) : v == 3 ?
			time_local_get(&s, &off) : v == 4 ?
			time_local_get(&s, NULL) :
			time_local_get(NULL, &off);
		hi = vk_real_ns;
		mc_n_nontrivial++;
		CHECK(r == 0, "reading the wall clock returns %d", r);
		if (v < 2) {
			CHECK(ms < 1000, "%u milliseconds", ms);
			got = (int64_t)s * 1000 + ms;
			CHECK(got >= lo / MS && got <= hi / MS, "the wall clock "
			      "is read as %llu s %u ms at %lld ns",
			      (unsigned long long)s, ms, (long long)hi);
		} else if (v < 5)
			CHECK((int64_t)s >= lo / S && (int64_t)s <= hi / S,
			      "the wall clock is read as %llu s at %lld ns",
			      (unsigned long long)s, (long long)hi);
		if (v == 0 || v == 3 || v == 5)
			CHECK(off == 0, "the offset of UTC is %d", off);
		if (v == 1 || v == 2 || v == 4)
			CHECK(off == 0x5555, "an offset is written");
	}
}

static void s_get(void *arg)
{
	int part = *(int *)arg, i, k;
	static const int64_t ns[] = { 0, 1, 999, 1000, 500000, 999000, 999999 };
	for (i = part; i < nT; i += 4) {
		mc_case(T[i], 0, 0, 8);
		get_one(T[i], 0);
		get_one(T[i], 1);
		get_one(T[i], 999999);
		get_one(T[i], 700000000);
		get_one(T[i], 1300000000);
	}
	for (i = part; i < 1000; i += 4)
		for (k = 0; k < 7; k++) {
			mc_case(i, k, 1, 8);
			get_one(1700000000 * S + i * MS + ns[k], 0);
			get_one(1700000000 * S + i * MS + ns[k], MS);
		}
}

/* the offset of the zone of the process, when it has one */
static void s_zone(void *arg)
{
	static const struct { const char *tz; int off; } z[] = {
		{ "UTC0", 0 }, { "AAA-1", 3600 }, { "AAA+1", -3600 },
		{ "AAA-5:30", 19800 }, { "AAA+3:30", -12600 },
		{ "AAA-14", 50400 }, { "AAA+12", -43200 }, { "AAA-0:01", 60 },
		{ "AAA+0:00:01", -1 }, { "AAA-9", 32400 } };
	/* with summer time, from the northern and southern hemispheres */
	static const char *dst[] = { "CET-1CEST,M3.5.0,M10.5.0/3",
		"EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3",
		"LHST-10:30LHDT-11,M10.1.0,M4.1.0" };
	int k, i, v, want;
	for (k = 0; k < 14; k++) {
		const char *tz = k < 10 ? z[k].tz : dst[k - 10];
		setenv("TZ", tz, 1);
		tzset();
		for (i = 0; i < nT + (k < 10 ? 0 : 400); i++)
			for (v = 0; v < 3; v++) {
				/* every 5 days of 5 years, then */
				int64_t t = i < nT ? T[i] : (1609459200ll +
					(i - nT) * 5 * 86400 + v * 1237) * S;
				time_t tt = t / S;
				struct tm tm;
				uint64_t s = 0x55;
				int32_t off = 0x5555;
				uint16_t ms;
				int r;
				if (k < 10)
					want = z[k].off;
				else {
					localtime_r(&tt, &tm);
					want = tm.tm_gmtoff;
				}
				set_clocks(S, t, 0, 0, 0);
				mc_case(k, t, v, 11);
				mc_count_transitions(1);
				mc_n_nontrivial++;
				r = v == 0 ? time_local_get(&s, &off) : v == 1 ?
					time_local_get(NULL, &off) :
					time_local_ms_get(&s, &ms, &off);
				CHECK(r == 0 && off == want, "the offset of "
				      "zone %s is %d at %ld (%d)", tz, off,
				      (long)tt, r);
				CHECK(v == 1 || s == (uint64_t)tt, "in "
				      "zone %s the clock is read as %llu", tz, (unsigned long long)s);
			}
	}
	setenv("TZ", "UTC0", 1);
	tzset();
}

/* around a change of the offset, with time passing between two readings: the
 * offset is the one at the seconds given with it */
static void s_change(void *arg)
{
	static const char *dst[] = { "CET-1CEST,M3.5.0,M10.5.0/3",
		"EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3",
		"LHST-10:30LHDT-11,M10.1.0,M4.1.0" };
	static const int64_t pass[] = { 0, 1, 1000, MS, 500 * MS, S - 1, S,
		S + 1, 3600 * S, 86400 * S };
	int k, v, i, j;
	for (k = 0; k < 4; k++) {
		time_t t, lo, hi, day;
		struct tm a, b, m;
		setenv("TZ", dst[k], 1);
		tzset();
		for (day = 1577836800; day < 1577836800 + 6 * 365 * 86400l;
		     day += 86400) {
			lo = day;
			hi = day + 86400;
			localtime_r(&lo, &a);
			localtime_r(&hi, &b);
			if (a.tm_gmtoff == b.tm_gmtoff)
				continue;
			while (hi - lo > 1) {
				t = lo + (hi - lo) / 2;
				localtime_r(&t, &m);
				if (m.tm_gmtoff == a.tm_gmtoff)
					lo = t;
				else
					hi = t;
			}
			for (i = 0; i < 10; i++)
				for (j = 0; j < 10; j++)
					for (v = 0; v < 3; v++) {
			int64_t at = hi * S - pass[i], end;
			uint64_t s = 0x55;
			int32_t off = 0x5555;
			uint16_t ms = 0;
			int r;
			mc_case(k * 10 + v, at, pass[j], 12);
			mc_count_transitions(1);
			mc_n_nontrivial++;
			set_clocks(S, at, pass[j], pass[j], 0);
			r = v == 0 ? time_local_get(&s, &off) : v == 1 ?
				time_local_ms_get(&s, &ms, &off) :
				time_local_get(NULL, &off);
			end = vk_real_ns;
			if (v == 2) {
				time_t x = at / S, y = end / S;
				localtime_r(&x, &a);
				localtime_r(&y, &b);
				CHECK(r == 0 && (off == a.tm_gmtoff || off ==
				      b.tm_gmtoff), "the offset of zone %s is "
				      "%d at %ld (%d)", dst[k], off, (long)x, r);
				continue;
			}
			t = s;
			localtime_r(&t, &m);
			CHECK(r == 0 && off == m.tm_gmtoff, "zone %s: the clock "
			      "is read as %ld with the offset %d, and not the "
			      "%ld of that second (%d)", dst[k], (long)t, off,
			      (long)m.tm_gmtoff, r);
			CHECK(t >= at / S && t <= end / S, "the clock is read "
			      "as %ld", (long)t);
					}
		}
	}
	setenv("TZ", "UTC0", 1);
	tzset();
}

/* ---- failures of each reading ---- */
static const int clock_errs[] = { EINVAL, EFAULT, EPERM, ENOSYS,
	EAGAIN, EACCES, EIO, 0 };
static void s_faults(void *arg)
{
	int k = mc_choose(8, "call"), r = -1;
	struct timespec t, v = { 1, 1 };
	uint64_t o, s;
	uint16_t ms;
	int32_t off;
	vk_errs[VKF_CLOCK] = clock_errs;
	vk_fault_mask = VKM(VKF_CLOCK);
	vk_fault_budget = 3;
	set_clocks(5 * S, 7 * S, 0, 0, 0);
	mc_case(k, 0, 0, 9);
	mc_count_transitions(1);
	switch (k) {
	case 0: r = time_get_monotonic(&t); break;
	case 1: r = time_get_realtime(&t); break;
	case 2: r = time_timespec_diff_now(&v, &t); break;
	case 3: r = time_monotonic_to_realtime_us(3000000, &o); break;
	case 4: r = time_monotonic_to_realtime_ms(3000, &o); break;
	case 5: r = time_local_get(&s, NULL); break;
	case 6: r = time_local_ms_get(&s, &ms, &off); break;
	case 7: r = time_local_set(1234, 0); break;
	}
	mc_n_nontrivial++;
	mc_outcome(mc_mix(k, r));
	if (vk_faults_done)
		CHECK(r < 0 && r >= -4095 && (r == -vk_first_fault_errno ||
		      r == -vk_last_fault_errno), "call %d returns %d after a "
		      "failure of the clock with %d", k, r,
		      vk_first_fault_errno);
	else
		CHECK(r == 0, "call %d returns %d", k, r);
}

static void s_null(void *arg)
{
	struct timespec t = { 1, 1 };
	set_clocks(5 * S, 7 * S, 0, 0, 0);
	mc_case(0, 0, 0, 10);
	mc_n_nontrivial++;
	CHECK(time_timespec_diff_now(NULL, &t) < 0, "null accepted");
	CHECK(time_timespec_diff_now(&t, NULL) < 0, "null accepted");
	CHECK(time_monotonic_to_realtime_us(1, NULL) < 0, "null accepted");
	CHECK(time_monotonic_to_realtime_ms(1, NULL) < 0, "null accepted");
	CHECK(time_local_get(NULL, NULL) < 0, "null accepted");
}

int main(int argc, char **argv)
{
	static int ids[16];
	char name[40];
	int i;
	mc_init(argc, argv);
	mc_set_reset(vk_reset);
	mk_times();
	setenv("TZ", "UTC0", 1);
	tzset();
	for (i = 0; i < 16; i++)
		ids[i] = i;
	mc_explore("change", s_change, NULL);
	mc_explore("readings", s_read, NULL);
	mc_explore("elapsed", s_elapsed, NULL);
	for (i = 0; i < 5; i++) {
		snprintf(name, sizeof(name), "sleep %d", i);
		mc_explore(name, s_sleep, &ids[i]);
	}
	mc_explore("interrupted", s_interrupted, NULL);
	for (i = 0; i < 8; i++) {
		snprintf(name, sizeof(name), "convert %d", i);
		mc_explore(name, s_convert, &ids[i]);
	}
	mc_explore("convert fine", s_fine, NULL);
	mc_explore("set", s_set, NULL);
	for (i = 0; i < 4; i++) {
		snprintf(name, sizeof(name), "get %d", i);
		mc_explore(name, s_get, &ids[i]);
	}
	mc_explore("zone", s_zone, NULL);
	mc_explore("failures", s_faults, NULL);
	mc_explore("null", s_null, NULL);
	return mc_end();
}
