/* C13: epoch seconds, broken-down time and text, for every day */
#include "mc.h"
#include "vk.h"
#include "cal.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <futils/systimetools.h>

#define LAST 253402300799ll	/* 9999-12-31 23:59:59 */

static void text(int fmt, const struct cal *c, int32_t off, char *s)
{
	int a = abs(off), zh = a / 3600, zm = a / 60 % 60;
	char sg = off < 0 ? '-' : '+';
	switch (fmt) {
	case TIME_FMT_SHORT:
		sprintf(s, "%04d%02d%02dT%02d%02d%02d%c%02d%02d", c->y, c->m,
			c->d, c->H, c->M, c->S, sg, zh, zm);
		break;
	case TIME_FMT_LONG:
		sprintf(s, "%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d", c->y,
			c->m, c->d, c->H, c->M, c->S, sg, zh, zm);
		break;
	default:
		/* documented in UTC */
		sprintf(s, "%s, %d %s %04d %02d:%02d:%02d GMT", cal_wd[c->wd],
			c->d, cal_mn[c->m - 1], c->y, c->H, c->M, c->S);
	}
}

static const int fmts[3] = { TIME_FMT_SHORT, TIME_FMT_LONG, TIME_FMT_RFC1123 };

static void instant(int64_t epoch, int32_t off, unsigned what)
{
	struct tm tm, keep;
	struct cal c;
	uint64_t e = 77;
	int32_t o = 77;
	int r, f;
	char buf[64], want[64];
	if (epoch < 0 || epoch + off > LAST)
		return;
	mc_case(epoch, off, what, 0);
	mc_n_nontrivial++;
	mc_count_transitions(2);
	cal_of(epoch + off, &c);
	memset(&tm, 0x5a, sizeof(tm));
	r = time_local_to_tm(epoch, off, &tm);
	CHECK(r == 0 && tm.tm_year == c.y - 1900 && tm.tm_mon == c.m - 1 &&
	      tm.tm_mday == c.d && tm.tm_hour == c.H && tm.tm_min == c.M &&
	      tm.tm_sec == c.S && tm.tm_wday == c.wd && tm.tm_yday == c.yd &&
	      tm.tm_gmtoff == off && tm.tm_isdst <= 0, "to_tm(%ld, %d): %d, "
	      "%d-%d-%d %d:%d:%d wday %d yday %d gmtoff %ld and not "
	      "%d-%d-%d %d:%d:%d wday %d yday %d", epoch, off, r,
	      tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour,
	      tm.tm_min, tm.tm_sec, tm.tm_wday, tm.tm_yday, tm.tm_gmtoff, c.y,
	      c.m, c.d, c.H, c.M, c.S, c.wd, c.yd);
	/* the week and year days of a given time need not be right */
	tm.tm_wday = (what & 1) ? -1 : tm.tm_wday;
	tm.tm_yday = (what & 1) ? 9999 : tm.tm_yday;
	keep = tm;
	r = time_local_from_tm(&tm, &e, &o);
	CHECK(r == 0 && (int64_t)e == epoch && o == off, "from_tm(%d-%d-%d "
	      "%d:%d:%d %+d): %d, %ld %d and not %ld", c.y, c.m, c.d, c.H,
	      c.M, c.S, off, r, e, o, epoch);
	CHECK(!memcmp(&keep, &tm, sizeof(tm)), "from_tm changed its source");
	if (what & 2) {
		e = 1;
		o = 1;
		r = time_local_from_tm(&tm, &e, NULL);
		CHECK(r == 0 && (int64_t)e == epoch, "from_tm without offset");
		r = time_local_from_tm(&tm, NULL, &o);
		CHECK(r == 0 && o == off, "from_tm without epoch");
	}
	if (off % 60)
		return;		/* the texts have whole minutes */
	for (f = 0; f < 3; f++) {
		if (!(what >> (4 + f) & 1))
			continue;
		mc_count_transitions(2);
		memset(buf, '#', sizeof(buf));
		r = time_local_format(epoch, off, fmts[f], buf, sizeof(buf));
		CHECK(r == 0 && memchr(buf, 0, sizeof(buf)), "format(%ld, %d, "
		      "%d): %d", epoch, off, f, r);
		if (f < 2 || off == 0) {
			text(fmts[f], &c, off, want);
			CHECK(!strcmp(buf, want), "format(%ld, %d, %d): '%s' "
			      "and not '%s'", epoch, off, f, buf, want);
		} else {
			sprintf(want, "%s, %d %s %04d %02d:%02d:%02d ",
				cal_wd[c.wd], c.d, cal_mn[c.m - 1], c.y, c.H,
				c.M, c.S);
			CHECK(!strncmp(buf, want, strlen(want)), "format(%ld, "
			      "%d, %d): '%s'", epoch, off, f, buf);
		}
		e = 77;
		o = 77;
		r = time_local_parse(buf, &e, &o);
		CHECK(r == 0 && (int64_t)e == epoch && o == off, "parse('%s'):"
		      " %d, %ld %d and not %ld %d", buf, r, e, o, epoch, off);
	}
}

/* every day of some years, at its first, last and one more second, with
 * offsets in turn */
static const int32_t offs[] = { 0, 3600, -3600, 60, -60, 34200, -34200, 43200,
	-43200, 50400, 20700, -12600, 86340, -86340, 1800, -1800 };
#define NO 16
static long step_days;
static void days(void *arg)
{
	long d, d0 = (long)(intptr_t)arg;
	int t;
	for (d = d0; d < d0 + step_days && d < 2932897; d++)
		for (t = 0; t < (mc_thorough ? 8 : 3); t++) {
			int64_t sod = t == 0 ? 0 : t == 1 ? 86399 :
				(d * 7919 + t * 1237) % 86400;
			int32_t off = offs[(d * 3 + t * 5 + d / 31) % NO];
			instant(d * 86400 + sod - (t < 2 ? off : 0), off,
				(t & 1) | 0x10 << (d + t) % 3 |
				(mc_thorough ? 0x70 : 0));
		}
	mc_outcome(d0);
	mc_sample("days %ld to %ld since 1970", d0, d - 1);
}

/* every offset of whole minutes, to 99:59, both signs */
static const int64_t when[] = { 360000, 86400, 5097600, 68169599, 951782400,
	951868799, 951868800, 1077926400, 4107542400ll, 4107456000ll,
	1533303595ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll,
	253402300799ll - 360000, 946684800, 946684799, 13574563200ll };
#define NW 19
static void offsets(void *arg)
{
	int i = (int)(intptr_t)arg, m, k;
	for (m = -5999; m <= 5999; m++)
		for (k = 0; k < 3; k++)
			instant(when[i] + k * 41 * 61, m * 60,
				0x70 | 2 | (m & 1));
	/* offsets in seconds, for the broken-down time */
	for (m = -86400; m <= 86400; m += mc_thorough ? 1 : 7)
		instant(when[i], m, m & 3);
	mc_outcome(i);
	mc_sample("all offsets at %ld", when[i]);
}

/* the first hours of 1970, which are still in 1969 west of Greenwich */
static void first(void *arg)
{
	int part = (int)(intptr_t)arg, m, s;
	for (m = -5999 + part; m <= 5999; m += 8)
		for (s = 0; s < 90000; s += s < 3 || (s > 86397 && s < 86402) ? 1 : s < 86397 ? 3599 : 1800)
			instant(s, m * 60, 0x70 | (m & 1));
	for (m = -359940 + part; m <= 0; m += 8) {
		instant(0, m, m & 3);
		instant(-m, m, m & 3);
		instant(-m - 1, m, m & 3);
	}
	mc_outcome(part);
}

/* instants far away: the exact time, or refused */
static void extreme(void *arg)
{
	static const int32_t ofs[] = { 0, 60, -60, 43200, -43200, 359940,
		-359940, 2147483647, -2147483647 - 1 };
	int b, c, d, k, f, r, sg;
	(void)arg;
	for (b = 38; b < 63; b++)
	for (c = 30; c <= b; c++)
	for (sg = -1; sg <= 1; sg += 2)
	for (d = -1; d <= 1; d++)
	for (k = 0; k < 9; k++) {
		int64_t e = (int64_t)((1ull << b) +
			(c == b ? 0 : sg * (1ll << c)) + d), t, day, y, rest;
		uint64_t e2 = 77;
		int32_t o2 = 77;
		struct tm tm;
		char *s;
		if (__builtin_add_overflow(e, (int64_t)ofs[k], &t) || t < 0)
			continue;
		mc_case(e, ofs[k], 3, 0);
		mc_n_nontrivial++;
		mc_count_transitions(2);
		day = t / 86400;
		/* the same day of a cycle of 400 years */
		y = day / 146097 * 400;
		rest = (day % 146097) * 86400 + t % 86400;
		struct cal cc;
		cal_of(rest, &cc);
		y += cc.y;
		memset(&tm, 0x5a, sizeof(tm));
		r = time_local_to_tm(e, ofs[k], &tm);
		if (y - 1900 > 2147483647)
			CHECK(r < 0, "to_tm(%ld, %d): year %ld does not fit, "
			      "and is accepted", e, ofs[k], y);
		else if (r == 0 || y <= 9999)
			CHECK(r == 0 && tm.tm_year == y - 1900 &&
			      tm.tm_mon == cc.m - 1 && tm.tm_mday == cc.d &&
			      tm.tm_hour == cc.H && tm.tm_min == cc.M &&
			      tm.tm_sec == cc.S && tm.tm_gmtoff == ofs[k],
			      "to_tm(%ld, %d): %d, %d-%d-%d and not %ld-%d-%d",
			      e, ofs[k], r, tm.tm_year + 1900, tm.tm_mon + 1,
			      tm.tm_mday, y, cc.m, cc.d);
		if (r == 0 && y <= 1000000) {
			r = time_local_from_tm(&tm, &e2, &o2);
			CHECK(r == 0 && (int64_t)e2 == e && o2 == ofs[k],
			      "from_tm of %ld %+d: %d, %ld", e, ofs[k], r, e2);
		}
		s = malloc(48);
		for (f = 0; f < 3; f++) {
			memset(s, '#', 48);
			r = time_local_format(e, ofs[k], fmts[f], s, 48);
			CHECK(r <= 0 && (r == 0 || y > 9999),
			      "format(%ld, %d): %d", e, ofs[k], r);
			CHECK(r < 0 || y - 1900 <= 2147483647,
			      "format(%ld, %d): success, year %ld does not "
			      "fit", e, ofs[k], y);
			CHECK(r < 0 || memchr(s, 0, 48), "format(%ld, %d) is "
			      "not terminated", e, ofs[k]);
		}
		free(s);
	}
	mc_outcome(9);
}

/* every second of a day */
static void seconds(void *arg)
{
	int i = (int)(intptr_t)arg, s;
	for (s = 0; s < 86400; s++)
		instant(when[i] / 86400 * 86400 + s, offs[(s / 60) % NO],
			0x10 << s % 3);
	mc_outcome(i);
}

/* the time zone of the process does not matter */
static const char *const zones[] = { "AAA-5:30", "EST5EDT,M3.2.0,M11.1.0",
	"NZST-12NZDT,M9.5.0,M4.1.0/3", "CET-1CEST,M3.5.0,M10.5.0/3", "AAA+12",
	"AAA-14" };
static void in_zone(void *arg)
{
	int z = (int)(intptr_t)arg, i, m, t;
	long d;
	setenv("TZ", zones[z], 1);
	tzset();
	/* all days up to 2110, then one every 17, and every half hour of 3
	 * years */
	for (d = 0; d < 2932897; d += d < 51135 || mc_thorough ? 1 : 17)
		for (t = 0; t < 2; t++)
			instant(d * 86400 + (d * 7919 + t * 43237) % 86400,
				offs[(d * 3 + t * 5 + d / 31) % NO],
				t | 0x10 << (d + t) % 3);
	for (i = 0; i < 3 * 366 * 48; i++)
		instant(1577836800 + i * 1800, offs[i % 7], i % 2 | 0x20);
	for (i = 0; i < NW; i++)
		for (m = -840; m <= 840; m += 15)
			instant(when[i], m * 60, 0x70 | (m & 1));
	setenv("TZ", "UTC0", 1);
	tzset();
	mc_outcome(z);
	mc_sample("with TZ=%s", zones[z]);
}

/* all pairs of calls in a row: the first one leaves no trace */
static void pairs(void *arg)
{
	static const int64_t es[] = { 100000, 100001, 100000 + 65536,
		100000 + (1 << 24), 951782400, 951782400 + 86399,
		951782400 - 86400, 951782400 + 256 * 86400, 951782400ll +
		65536ll * 86400, 951782400ll + (1ll << 32), 951782400ll +
		(1ll << 31), 951782400ll + 400 * 31556952ll, 1077926400,
		1533303595, 1533303595 + 3600, 4294967296ll, 253402300799ll -
		90000 };
	static const int32_t os[] = { 0, 3600, -3600, 60, -60, 19800, 43200 };
	int part = (int)(intptr_t)arg, i, j, k, l;
	for (i = part; i < 17; i += 4)
		for (j = 0; j < 7; j++)
			for (k = 0; k < 17; k++)
				for (l = 0; l < 7; l++) {
					instant(es[i], os[j], 0x70);
					instant(es[k], os[l], 0x71);
					instant(es[k], os[j], 0x10 << l % 3);
				}
	mc_outcome(part);
}

static void sizes(void *arg)
{
	int i = (int)(intptr_t)arg, f, r;
	size_t n;
	char want[64], *b;
	struct cal c;
	uint64_t e;
	int32_t o, off = offs[i % NO] > 0 ? offs[i % NO] : -3600;
	struct tm tm;
	vk_reset();
	for (f = 0; f < 4; f++) {
		int fm = fmts[f < 3 ? f : 2];
		int32_t z = f == 3 ? 0 : off;
		cal_of(when[i] + z, &c);
		r = time_local_format(when[i], z, fm, want, sizeof(want));
		CHECK(r == 0, "format: %d", r);
		if (f < 2 || f == 3) {
			char t[64];
			text(fm, &c, z, t);
			CHECK(!strcmp(t, want), "format: '%s'", want);
		}
		for (n = 1; n < 40; n++) {
			mc_case(i, f, n, 0);
			mc_n_nontrivial++;
			mc_count_transitions(1);
			b = malloc(n);
			memset(b, '#', n);
			/* AddressSanitizer watches the end */
			r = time_local_format(when[i], z, fm, b, n);
			CHECK(memchr(b, 0, n), "format in %zu bytes is not "
			      "terminated", n);
			CHECK(n <= strlen(want) || r == 0, "format in %zu "
			      "bytes: %d", n, r);
			CHECK(r < 0 || !strncmp(b, want, n - 1), "format in "
			      "%zu bytes: '%s'", n, b);
			free(b);
		}
		CHECK(time_local_format(when[i], z, fm, want, 0) == -EINVAL &&
		      time_local_format(when[i], z, fm, NULL, 9) == -EINVAL,
		      "format without buffer");
	}
	b = malloc(40);
	CHECK(time_local_format(when[i], 0, (enum time_fmt)7, b, 40) ==
	      -EINVAL, "unknown format");
	free(b);
	CHECK(time_local_to_tm(when[i], 0, NULL) == -EINVAL, "null tm");
	CHECK(time_local_from_tm(NULL, &e, &o) == -EINVAL, "null tm");
	CHECK(time_local_to_tm(when[i], 0, &tm) == 0 &&
	      time_local_from_tm(&tm, NULL, NULL) == -EINVAL, "null outputs");
	CHECK(time_local_parse(NULL, &e, &o) == -EINVAL &&
	      time_local_parse("20180301T014814-1025", NULL, &o) == -EINVAL &&
	      time_local_parse("20180301T014814-1025", &e, NULL) == -EINVAL,
	      "null parse");
	mc_outcome(i);
}

/* months out of range: refused, or normalized */
static void months(void *arg)
{
	static const int ms[] = { -2147483647 - 1, -2147483647, -100, -13, -12,
		-11, -3, -2, -1, 12, 13, 14, 15, 23, 24, 25, 100, 255, 256,
		65536, 2147483646, 2147483647 };
	unsigned i;
	(void)arg;
	for (i = 0; i < sizeof(ms) / sizeof(ms[0]); i++) {
		struct tm tm;
		uint64_t e = 77;
		int32_t o = 77;
		int r, y = 2000, m = ms[i];
		memset(&tm, 0, sizeof(tm));
		tm.tm_year = 100;
		tm.tm_mon = m;
		tm.tm_mday = 5;
		mc_case(m, 0, 0, 0);
		mc_n_nontrivial++;
		r = time_local_from_tm(&tm, &e, &o);
		if (r < 0)
			continue;
		while (m < 0 && y > 1970) {
			m += 12;
			y--;
		}
		while (m > 11 && y < 9999) {
			m -= 12;
			y++;
		}
		CHECK(m >= 0 && m < 12 && (int64_t)e == cal_days(y, m + 1, 5)
		      * 86400, "from_tm accepts month %d as %ld", ms[i], e);
	}
	mc_outcome(5);
}

int main(int argc, char **argv)
{
	int i;
	long d;
	static char nm[60];
	mc_init(argc, argv);
	cal_init();
	if (cal_days(9999, 12, 31) * 86400 + 86399 != LAST ||
	    cal_days(2000, 3, 1) * 86400 != 951868800)
		mc_broken("reference calendar");
	step_days = 40000;
	for (d = 0; d < 2932897; d += step_days) {
		sprintf(nm, "days/%ld", d);
		mc_explore(nm, days, (void *)(intptr_t)d);
	}
	for (i = 0; i < NW; i++) {
		sprintf(nm, "offsets/%d", i);
		mc_explore(nm, offsets, (void *)(intptr_t)i);
		sprintf(nm, "seconds/%d", i);
		mc_explore(nm, seconds, (void *)(intptr_t)i);
		sprintf(nm, "sizes/%d", i);
		mc_explore(nm, sizes, (void *)(intptr_t)i);
	}
	mc_explore("months", months, NULL);
	mc_explore("extreme", extreme, NULL);
	for (i = 0; i < 8; i++) {
		sprintf(nm, "first/%d", i);
		mc_explore(nm, first, (void *)(intptr_t)i);
	}
	for (i = 0; i < 4; i++) {
		sprintf(nm, "pairs/%d", i);
		mc_explore(nm, pairs, (void *)(intptr_t)i);
	}
	for (i = 0; i < 6; i++) {
		sprintf(nm, "zone/%s", zones[i]);
		mc_explore(nm, in_zone, (void *)(intptr_t)i);
	}
	return mc_end();
}
