/* C14: parsing of dates and times: safe on any text, exact on valid text,
 * two-step setting */
#include "mc.h"
#include "vk.h"
#include "cal.h"
#include <ctype.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <futils/systimetools.h>

/* ---- reference: strictly well-formed texts and their value ---- */
static int dig(const char *s, int n, int *v)
{
	int i;
	*v = 0;
	for (i = 0; i < n; i++) {
		if (s[i] < '0' || s[i] > '9')
			return 0;
		*v = *v * 10 + s[i] - '0';
	}
	return 1;
}

static int ok_date(int y, int m, int d)
{
	return y >= 1970 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 &&
		d <= cal_mdays(y, m);
}

/* length of the date at s (0: not one), iso notations */
static int ref_iso(const char *s, int *y, int *m, int *d)
{
	size_t n = strlen(s);
	if (n >= 10 && dig(s, 4, y) && s[4] == '-' && dig(s + 5, 2, m) &&
	    s[7] == '-' && dig(s + 8, 2, d) && ok_date(*y, *m, *d))
		return 10;
	if (n >= 8 && dig(s, 4, y) && dig(s + 4, 2, m) && dig(s + 6, 2, d) &&
	    ok_date(*y, *m, *d))
		return 8;
	return 0;
}

static int ref_rfc(const char *s, int *y, int *m, int *d)
{
	char t[2][40];
	int i, wd, k, n, w;
	static const char *const f[4] = { "%s, %d %s %04d ", "%s, %02d %s "
		"%04d ", "%s, %s %d %04d ", "%s, %s %02d %04d " };
	char mn[4], ws[4];
	/* by construction from what it says */
	if (strlen(s) < 16 || s[3] != ',' || s[4] != ' ')
		return 0;
	memcpy(ws, s, 3);
	ws[3] = 0;
	n = -1;
	if (sscanf(s + 5, "%2d %3s %4d%n", d, mn, y, &n) < 3 || n < 0)
		if (sscanf(s + 5, "%3s %2d %4d%n", mn, d, y, &n) < 3 || n < 0)
			return 0;
	for (*m = 1; *m <= 12; ++*m)
		if (!strcmp(mn, cal_mn[*m - 1]))
			break;
	if (!ok_date(*y, *m, *d))
		return 0;
	w = (int)((cal_days(*y, *m, *d) + 4) % 7);
	for (wd = 0; wd < 7; wd++)
		if (!strcmp(ws, cal_wd[wd]))
			break;
	if (wd != w)
		return 0;
	for (i = 0; i < 4; i++) {
		if (i < 2)
			k = sprintf(t[0], f[i], cal_wd[w], *d, mn, *y);
		else
			k = sprintf(t[0], f[i], cal_wd[w], mn, *d, *y);
		if (!strncmp(s, t[0], k))
			return k - 1;
	}
	return 0;
}

/* hour and zone, all the text */
static int ref_time(const char *s, int *H, int *M, int *S, int *z)
{
	int n = (int)strlen(s), zh, zm, k = 0;
	if (s[0] == 'T')
		k = 1;
	if (n - k >= 8 && dig(s + k, 2, H) && s[k + 2] == ':' &&
	    dig(s + k + 3, 2, M) && s[k + 5] == ':' && dig(s + k + 6, 2, S))
		k += 8;
	else if (n - k >= 6 && dig(s + k, 2, H) && dig(s + k + 2, 2, M) &&
		 dig(s + k + 4, 2, S))
		k += 6;
	else
		return 0;
	if (*H > 23 || *M > 59 || *S > 59)
		return 0;
	if (s[k] == ' ')
		k++;
	s += k;
	n -= k;
	*z = 0;
	if (!strcmp(s, "Z") || !strcmp(s, "GMT") || !strcmp(s, "UT") ||
	    !strcmp(s, "UTC"))
		return 1;
	if (s[0] != '+' && s[0] != '-')
		return 0;
	if (n == 6 && dig(s + 1, 2, &zh) && s[3] == ':' && dig(s + 4, 2, &zm))
		;
	else if (n == 5 && dig(s + 1, 2, &zh) && dig(s + 3, 2, &zm))
		;
	else
		return 0;
	if (zh > 23 || zm > 59)
		return 0;
	*z = (zh * 60 + zm) * (s[0] == '-' ? -60 : 60);
	return 1;
}

struct val { int64_t epoch; int z; };
static int ref_hms(const char *s, int *sod, int *z)
{
	int H, M, S;
	if (!ref_time(s, &H, &M, &S, z))
		return 0;
	*sod = (H * 60 + M) * 60 + S;
	return 1;
}

static int ref_all(const char *s, struct val *v)
{
	int y, m, d, k, sod;
	k = ref_rfc(s, &y, &m, &d);
	if (!k)
		k = ref_iso(s, &y, &m, &d);
	if (!k)
		return 0;
	/* one separator: 'T' or a space */
	if (s[k] == ' ' && s[k + 1] != 'T')
		k++;
	else if (s[k] != 'T')
		return 0;
	if (!ref_hms(s + k, &sod, &v->z))
		return 0;
	v->epoch = cal_days(y, m, d) * 86400 + sod - v->z;
	return v->epoch >= 0;
}

/* ---- the real code ---- */
static uint64_t n_valid, n_acc;
static void one(const char *s)
{
	struct val v = { 0, 0 };
	struct time_ctx c;
	uint64_t e[3] = { 0x5555, 0xaaaa, 0x3333 };
	int32_t o[3] = { 0x5555, -0xaaaa, 0x3333 };
	int r[3], i, y, m, d, k, sod, z;
	/* an exactly sized copy: AddressSanitizer watches its end */
	size_t n = strlen(s);
	char *t = malloc(n + 1);
	memcpy(t, s, n + 1);
	mc_case(n, n > 0 ? *(const uint8_t *)s : 0, mc_hash(s, n, 0), 0);
	mc_n_nontrivial++;
	mc_count_transitions(6);
	for (i = 0; i < 2; i++)
		r[i] = time_local_parse(t, &e[i], &o[i]);
	CHECK(r[0] <= 0 && r[0] == r[1], "parse('%s'): %d, then %d", s, r[0],
	      r[1]);
	if (r[0] == 0)
		CHECK(e[0] == e[1] && o[0] == o[1], "parse('%s') depends on "
		      "something else: %ld %d, then %ld %d", s, e[0], o[0],
		      e[1], o[1]);
	n_acc += r[0] == 0;
	if (ref_all(s, &v)) {
		n_valid++;
		CHECK(r[0] == 0 && (int64_t)e[0] == v.epoch && o[0] == v.z,
		      "parse('%s'): %d, %ld %d and not %ld %d", s, r[0], e[0],
		      o[0], v.epoch, v.z);
	}
	CHECK(time_ctx_init(&c) == 0, "init");
	r[2] = time_ctx_set_time(&c, t);
	CHECK(r[2] <= 0 && (r[2] == 0) == (r[0] == 0), "set_time('%s'): %d, "
	      "parse: %d", s, r[2], r[0]);
	i = time_ctx_get_local(&c, &e[2], &o[2]);
	if (r[2] == 0)
		CHECK(i == 0 && e[2] == e[0] && o[2] == o[0], "set_time('%s'):"
		      " %d, %ld %d, parse %ld %d", s, i, e[2], o[2], e[0],
		      o[0]);
	else
		CHECK(i == -EINPROGRESS, "set_time('%s') refused, get: %d", s,
		      i);
	CHECK(time_ctx_init(&c) == 0, "init");
	i = time_ctx_set_date(&c, t);
	CHECK(i < 0, "set_date alone: %d", i);
	k = ref_iso(s, &y, &m, &d);
	if (k && !s[k]) {
		n_valid++;
		CHECK(i == -EINPROGRESS, "set_date('%s'): %d", s, i);
		CHECK(time_ctx_set_hour(&c, "00:00:00Z") == 0, "set_hour");
		CHECK(time_ctx_get_local(&c, &e[2], &o[2]) == 0 &&
		      (int64_t)e[2] == cal_days(y, m, d) * 86400 && o[2] == 0,
		      "set_date('%s'): %ld %d", s, e[2], o[2]);
	}
	CHECK(time_ctx_init(&c) == 0, "init");
	i = time_ctx_set_hour(&c, t);
	CHECK(i < 0, "set_hour alone: %d", i);
	if (ref_hms(s, &sod, &z)) {
		n_valid++;
		CHECK(i == -EINPROGRESS, "set_hour('%s'): %d", s, i);
		CHECK(time_ctx_set_date(&c, "20240229") == 0, "set_date");
		CHECK(time_ctx_get_local(&c, &e[2], &o[2]) == 0 &&
		      (int64_t)e[2] == 1709164800 + sod - z && o[2] == z,
		      "set_hour('%s'): %ld %d", s, e[2], o[2]);
	}
	CHECK(!memcmp(t, s, n + 1), "the text was changed");
	free(t);
}

/* ---- enumerations ---- */
static const char *const tmpl[] = {
	"2018-03-01T01:48:14-10:25", "20180301T014814-1025",
	"2018-03-01 01:48:14 +10:25", "20180301 014814Z",
	"2018-03-01T014814+0530", "20180301T01:48:14 GMT",
	"2016-02-29T23:59:59UTC", "20991231T000000UT",
	"Mon, 13 Aug 2018 13:39:55 GMT", "Wed, 5 Sep 2018 03:09:05 +0100",
	"Wed, 05 Sep 2018 03:09:05 -01:00", "Wed, Sep 5 2018 03:09:05 UT",
	"Wed, Sep 05 2018 030905Z", "Mon, 13 Aug 2018T13:39:55Z",
	"2018-03-01", "20180301", "01:48:14-10:25", "T014814+1025",
	"014814Z", "T01:48:14 UTC", "Thu, Jan 1 1970 0:0:0 GMT",
	"1970-01-01T00:00:00+00:00", "9999-12-31T23:59:59Z",
	"Mon, 3 De 2018 13:39:55", "2018-3-1T1:4:1Z", "",
};
#define NT ((int)(sizeof(tmpl) / sizeof(tmpl[0])))
static const char al[] = "019-+T: ,ZGMUCab/\x80";
#define NA ((int)sizeof(al) - 1)

static void mutations(void *arg)
{
	const char *s = tmpl[(intptr_t)arg];
	int n = (int)strlen(s), i, j, a, b, k;
	char t[100];
	one(s);
	/* each byte; each pair of positions over the alphabet */
	for (i = 0; i < n; i++) {
		strcpy(t, s);
		for (a = 0; a < 256; a++) {
			t[i] = (char)a;
			one(t);
		}
		for (j = i + 1; j < n; j++)
			for (a = 0; a < NA; a++)
				for (b = 0; b < NA; b++) {
					strcpy(t, s);
					t[i] = al[a];
					t[j] = al[b];
					one(t);
				}
	}
	/* every part of the text, with any byte before or after it */
	for (i = 0; i <= n; i++)
		for (j = i; j <= n; j++) {
			memcpy(t, s + i, j - i);
			t[j - i] = 0;
			one(t);
			for (a = 0; a < NA; a++) {
				t[j - i] = al[a];
				t[j - i + 1] = 0;
				one(t);
				t[0] = al[a];
				memcpy(t + 1, s + i, j - i);
				t[j - i + 1] = 0;
				one(t);
				memcpy(t, s + i, j - i);
			}
			/* parts removed, or repeated */
			memcpy(t, s, i);
			strcpy(t + i, s + j);
			one(t);
			memcpy(t, s, j);
			strcpy(t + j, s + i);
			one(t);
			/* or replaced by a longer run */
			for (a = 0; a < NA; a++)
				for (k = 1; k < 5; k++) {
					memcpy(t, s, i);
					memset(t + i, al[a], k);
					strcpy(t + i + k, s + j);
					one(t);
				}
		}
	mc_outcome(n_valid);
	mc_sample("mutations of '%s': %lu accepted, %lu well-formed so far",
		  s, n_acc, n_valid);
}

/* any short text over an alphabet */
static const char sal[] = "0+-T: Z";
static void shorts(void *arg)
{
	int len = (int)(intptr_t)arg / 10, f = (int)(intptr_t)arg % 10, i;
	char t[20];
	long k, tot = 1, x;
	for (i = 1; i < len; i++)
		tot *= 7;
	for (k = 0; k < tot; k++) {
		t[0] = sal[f];
		for (i = 1, x = k; i < len; i++, x /= 7)
			t[i] = sal[x % 7];
		t[len] = 0;
		one(t);
	}
	mc_outcome(len * 10 + f);
}

/* all well-formed combinations of notations and field values */
static void product(void *arg)
{
	int dn = (int)(intptr_t)arg, tn, zn, sp, i, k, a, b, zs;
	static const int ymd[][3] = { { 1970, 1, 2 }, { 1999, 12, 31 },
		{ 2000, 1, 1 }, { 2000, 2, 29 }, { 2000, 3, 1 },
		{ 2015, 9, 9 }, { 2023, 10, 10 }, { 2024, 11, 30 },
		{ 2038, 1, 19 }, { 2038, 1, 20 }, { 2100, 2, 28 },
		{ 2100, 3, 1 }, { 2106, 2, 7 }, { 2106, 2, 8 },
		{ 2400, 2, 29 }, { 4321, 5, 6 }, { 8888, 8, 8 },
		{ 9999, 12, 31 }, { 2010, 4, 8 }, { 2011, 6, 18 },
		{ 2012, 7, 28 } };
	static const int hms[][3] = { { 0, 0, 0 }, { 23, 59, 59 }, { 0, 0, 1 },
		{ 0, 1, 0 }, { 1, 0, 0 }, { 8, 9, 8 }, { 12, 34, 56 },
		{ 19, 8, 10 }, { 9, 59, 0 } };
	static const int zo[][2] = { { 0, 0 }, { 0, 1 }, { 0, 30 }, { 1, 0 },
		{ 8, 9 }, { 9, 8 }, { 12, 0 }, { 14, 0 }, { 5, 45 },
		{ 23, 59 }, { 0, 59 }, { 10, 1 } };
	static const char *const zname[] = { "Z", "GMT", "UT", "UTC" };
	char t[100];
	uint64_t v0;
	for (i = 0; i < 21; i++)
	for (k = 0; k < 9; k++)
	for (tn = 0; tn < 2; tn++)
	for (zn = 0; zn < 6; zn++)
	for (sp = 0; sp < 4; sp++)
	for (a = 0; a < (zn < 2 ? 12 : 1); a++)
	for (zs = 0; zs < (zn < 2 ? 2 : 1); zs++) {
		const int *y = ymd[i], *h = hms[k];
		int n, w = (int)((cal_days(y[0], y[1], y[2]) + 4) % 7);
		const char *mn = cal_mn[y[1] - 1];
		switch (dn) {
		case 0:
			n = sprintf(t, "%04d-%02d-%02d", y[0], y[1], y[2]);
			break;
		case 1:
			n = sprintf(t, "%04d%02d%02d", y[0], y[1], y[2]);
			break;
		case 2:
			n = sprintf(t, "%s, %d %s %04d", cal_wd[w], y[2], mn,
				    y[0]);
			break;
		case 3:
			n = sprintf(t, "%s, %02d %s %04d", cal_wd[w], y[2], mn,
				    y[0]);
			break;
		case 4:
			n = sprintf(t, "%s, %s %d %04d", cal_wd[w], mn, y[2],
				    y[0]);
			break;
		default:
			n = sprintf(t, "%s, %s %02d %04d", cal_wd[w], mn, y[2],
				    y[0]);
		}
		b = n;
		t[n++] = sp & 1 ? ' ' : 'T';
		n += sprintf(t + n, tn ? "%02d:%02d:%02d" : "%02d%02d%02d",
			     h[0], h[1], h[2]);
		if (sp & 2)
			t[n++] = ' ';
		if (zn < 2)
			sprintf(t + n, zn ? "%c%02d:%02d" : "%c%02d%02d",
				zs ? '-' : '+', zo[a][0], zo[a][1]);
		else
			strcpy(t + n, zname[zn - 2]);
		v0 = n_valid;
		one(t);
		if (y[0] > 1970 && n_valid == v0 &&
		    (dn < 2 || (sp & 1)))
			mc_broken("'%s' should be well-formed", t);
		/* the parts alone */
		if (sp & 1)
			b++;
		if (i == 0)
			one(t + b);
		if (k == 0 && dn < 2 && zn == 0 && a == 0 && sp < 2) {
			t[sp & 1 ? b - 1 : b] = 0;
			one(t);
		}
	}
	mc_outcome(dn);
	mc_sample("notation %d of the date: %lu well-formed", dn, n_valid);
}

/* every second, every date of 24 years, every offset */
static void fields(void *arg)
{
	int part = (int)(intptr_t)arg, i, y, m, d;
	char t[100];
	if (part < 8) {
		for (i = part; i < 86400; i += 8) {
			sprintf(t, i & 1 ? "2018-03-01T%02d:%02d:%02dZ" :
				"20180301T%02d%02d%02d+0000", i / 3600,
				i / 60 % 60, i % 60);
			one(t);
			one(t + (i & 1 ? 10 : 8));
		}
	} else if (part == 8) {
		for (i = -1439; i < 1440; i++) {
			int a = abs(i);
			sprintf(t, i & 1 ? "20180301T000000%c%02d%02d" :
				"2018-03-01T00:00:00%c%02d:%02d",
				i < 0 ? '-' : '+', a / 60, a % 60);
			one(t);
			one(t + (i & 1 ? 8 : 10));
		}
	} else {
		for (y = part == 9 ? 1970 : part == 10 ? 2090 : part == 11 ?
		     2390 : 9990; cal_days(y, 1, 1) < cal_days(9999, 12, 31) &&
		     y < (part == 9 ? 2040 : part == 10 ? 2110 : part == 11 ?
			  2410 : 10000); y++)
			for (m = 1; m <= 12; m++)
				for (d = 1; d <= cal_mdays(y, m); d++) {
					sprintf(t, d & 1 ?
						"%04d-%02d-%02d" :
						"%04d%02d%02d", y, m, d);
					one(t);
					strcat(t, " 12:00:01Z");
					one(t);
					sprintf(t, "%s, %02d %s %d 00:00:00 "
						"GMT", cal_wd[(cal_days(y, m,
						d) + 4) % 7], d,
						cal_mn[m - 1], y);
					one(t);
				}
	}
	mc_outcome(part);
}

/* the time zone of the process does not matter */
static const char *const zones[] = { "AAA-5:30", "EST5EDT,M3.2.0,M11.1.0",
	"NZST-12NZDT,M9.5.0,M4.1.0/3", "CET-1CEST,M3.5.0,M10.5.0/3", "AAA+12",
	"AAA-14" };
static void in_zone(void *arg)
{
	int z = (int)(intptr_t)arg, i;
	setenv("TZ", zones[z], 1);
	tzset();
	for (i = 6; i < 13; i++)
		fields((void *)(intptr_t)i);
	setenv("TZ", "UTC0", 1);
	tzset();
}

/* ---- two-step setting: all sequences of operations ---- */
static const char *const dates[] = { "2018-03-01", "20240229", "2018-13-01",
	"2018-12-3x", "2018-xx-05", "garbage", "", "2018-03-01T" };
static const char *const hours[] = { "T014814-1025", "23:59:59Z",
	"11:22:3x+0100", "112233+01xx", "112233+xx00", "zzzzzz", "", "112233" };
static const char *const times[] = { "2020-02-29T11:22:33+01:00",
	"Mon, 13 Aug 2018 13:39:55 GMT", "2020-02-29T11:22:33+01:xx",
	"2020-13-29T11:22:33+01:00", "2020-02-29", "" };
static void ctx(void *arg)
{
	int depth = (int)(intptr_t)arg, i, c, r;
	struct time_ctx x;
	int has_d = 0, has_h = 0, D = 0, sod = 0, z = 0;
	struct val v;
	memset(&x, 0x5a, sizeof(x));
	CHECK(time_ctx_init(&x) == 0, "init");
	for (i = 0; i < depth; i++) {
		uint64_t e = 77;
		int32_t o = 77;
		uint64_t h;
		c = mc_choose(8 + 8 + 6, "operation");
		if (c < 8) {
			int y, m, d, k = ref_iso(dates[c], &y, &m, &d);
			int ok = k && !dates[c][k];
			r = time_ctx_set_date(&x, dates[c]);
			mc_log("set_date('%s') = %d", dates[c], r);
			if (has_d)
				CHECK(ok ? r == -EEXIST : r < 0, "date '%s' "
				      "set again: %d", dates[c], r);
			else if (!ok)
				CHECK(r < 0 && r != -EINPROGRESS, "set_date("
				      "'%s'): %d", dates[c], r);
			else {
				CHECK(r == (has_h ? 0 : -EINPROGRESS),
				      "set_date('%s'): %d", dates[c], r);
				has_d = 1;
				D = (int)cal_days(y, m, d);
			}
		} else if (c < 16) {
			int s1, z1, ok = ref_hms(hours[c - 8], &s1, &z1);
			r = time_ctx_set_hour(&x, hours[c - 8]);
			mc_log("set_hour('%s') = %d", hours[c - 8], r);
			if (has_h)
				CHECK(ok ? r == -EEXIST : r < 0, "hour '%s' "
				      "set again: %d", hours[c - 8], r);
			else if (!ok)
				CHECK(r < 0 && r != -EINPROGRESS, "set_hour("
				      "'%s'): %d", hours[c - 8], r);
			else {
				CHECK(r == (has_d ? 0 : -EINPROGRESS),
				      "set_hour('%s'): %d", hours[c - 8], r);
				has_h = 1;
				sod = s1;
				z = z1;
			}
		} else {
			int ok = ref_all(times[c - 16], &v);
			r = time_ctx_set_time(&x, times[c - 16]);
			mc_log("set_time('%s') = %d", times[c - 16], r);
			if (has_d || has_h)
				CHECK(ok ? r == -EEXIST : r < 0, "time '%s' "
				      "set again: %d", times[c - 16], r);
			else if (!ok)
				CHECK(r < 0 && r != -EINPROGRESS, "set_time("
				      "'%s'): %d", times[c - 16], r);
			else {
				CHECK(r == 0, "set_time('%s'): %d",
				      times[c - 16], r);
				has_d = has_h = 1;
				z = v.z;
				D = (int)((v.epoch + z) / 86400);
				sod = (int)((v.epoch + z) % 86400);
			}
		}
		r = time_ctx_get_local(&x, &e, &o);
		if (has_d && has_h)
			CHECK(r == 0 && (int64_t)e == (int64_t)D * 86400 +
			      sod - z && o == z, "the time is %d, %ld %d and "
			      "not %ld %d", r, e, o, (int64_t)D * 86400 + sod
			      - z, z);
		else
			CHECK(r == -EINPROGRESS, "incomplete time got: %d", r);
		h = mc_mix(has_d * 2 + has_h, D);
		h = mc_mix(h, sod);
		h = mc_mix(h, z);
		mc_state(mc_mix(h, i));
	}
	CHECK(time_ctx_get_local(&x, NULL, NULL) == -EINVAL, "null");
	mc_outcome(mc_mix(D, sod));
}

/* two times set alternately */
static void two(void *arg)
{
	static const char *const txt[2][5] = {
		{ "2018-03-01", "T014814-1025", "2020-02-29T11:22:33+01:00",
		  "20240229", "23:59:59Z" },
		{ "1999-12-31", "000102+0530", "Mon, 13 Aug 2018 13:39:55 GMT",
		  "2018-xx-01", "zzzzzz" } };
	struct time_ctx x[2];
	int has[2] = { 0, 0 }, D[2], sod[2], z[2], i, k;
	(void)arg;
	for (k = 0; k < 2; k++)
		CHECK(time_ctx_init(&x[k]) == 0, "init");
	for (i = 0; i < (mc_thorough ? 6 : 5); i++) {
		int c = mc_choose(10, "operation"), w, r, bit, y, m, d, s1, z1;
		const char *t = txt[c / 5][c % 5];
		struct val v;
		w = mc_choose(2, "which");
		if (c % 5 == 2) {
			r = time_ctx_set_time(&x[w], t);
			bit = 3;
			if (!ref_all(t, &v))
				mc_broken("text");
			d = (int)((v.epoch + v.z) / 86400);
			s1 = (int)((v.epoch + v.z) % 86400);
			z1 = v.z;
		} else if (c % 5 == 0 || c % 5 == 3) {
			r = time_ctx_set_date(&x[w], t);
			bit = ref_iso(t, &y, &m, &d) ? 1 : 0;
			d = bit ? (int)cal_days(y, m, d) : 0;
		} else {
			r = time_ctx_set_hour(&x[w], t);
			bit = ref_hms(t, &s1, &z1) ? 2 : 0;
		}
		mc_log("%s in %d: %d", t, w, r);
		if (!bit)
			CHECK(r < 0 && r != -EINPROGRESS, "'%s': %d", t, r);
		else if (has[w] & bit)
			CHECK(r == -EEXIST, "'%s' set again: %d", t, r);
		else {
			has[w] |= bit;
			if (bit & 1)
				D[w] = d;
			if (bit & 2) {
				sod[w] = s1;
				z[w] = z1;
			}
			CHECK(r == (has[w] == 3 ? 0 : -EINPROGRESS), "'%s': "
			      "%d", t, r);
		}
		for (k = 0; k < 2; k++) {
			uint64_t e = 77;
			int32_t o = 77;
			r = time_ctx_get_local(&x[k], &e, &o);
			if (has[k] == 3)
				CHECK(r == 0 && (int64_t)e == D[k] * 86400ll +
				      sod[k] - z[k] && o == z[k], "time %d is "
				      "%d, %ld %d", k, r, (long)e, o);
			else
				CHECK(r == -EINPROGRESS, "incomplete time %d "
				      "got: %d", k, r);
		}
	}
	mc_outcome(has[0] * 4 + has[1]);
}

/* all pairs of texts in a row */
static void pairs(void *arg)
{
	int part = (int)(intptr_t)arg, i, j, n = NT;
	static const char *all[NT + 30];
	for (i = 0; i < NT; i++)
		all[i] = tmpl[i];
	for (i = 0; i < 8; i++)
		all[n++] = dates[i];
	for (i = 0; i < 8; i++)
		all[n++] = hours[i];
	for (i = 0; i < 6; i++)
		all[n++] = times[i];
	for (i = part; i < n; i += 4)
		for (j = 0; j < n; j++) {
			one(all[i]);
			one(all[j]);
		}
}

static void nulls(void *arg)
{
	struct time_ctx x;
	uint64_t e;
	int32_t o;
	(void)arg;
	CHECK(time_ctx_init(NULL) == -EINVAL, "null");
	CHECK(time_ctx_init(&x) == 0, "init");
	CHECK(time_ctx_set_date(NULL, "20180301") == -EINVAL &&
	      time_ctx_set_date(&x, NULL) == -EINVAL &&
	      time_ctx_set_hour(NULL, "000000Z") == -EINVAL &&
	      time_ctx_set_hour(&x, NULL) == -EINVAL &&
	      time_ctx_set_time(NULL, "20180301T000000Z") == -EINVAL &&
	      time_ctx_set_time(&x, NULL) == -EINVAL &&
	      time_ctx_get_local(NULL, &e, &o) == -EINVAL &&
	      time_ctx_get_local(&x, NULL, &o) == -EINVAL &&
	      time_ctx_get_local(&x, &e, NULL) == -EINVAL, "null");
	CHECK(time_ctx_get_local(&x, &e, &o) == -EINPROGRESS, "empty");
}

int main(int argc, char **argv)
{
	int i, f;
	static char nm[100];
	mc_init(argc, argv);
	cal_init();
	mc_explore("nulls", nulls, NULL);
	mc_explore("ctx", ctx, (void *)(intptr_t)(mc_thorough ? 5 : 4));
	for (i = 0; i < NT; i++) {
		sprintf(nm, "mutations/%d", i);
		mc_explore(nm, mutations, (void *)(intptr_t)i);
	}
	for (i = 0; i < 6; i++) {
		sprintf(nm, "product/%d", i);
		mc_explore(nm, product, (void *)(intptr_t)i);
	}
	for (i = 0; i < 13; i++) {
		sprintf(nm, "fields/%d", i);
		mc_explore(nm, fields, (void *)(intptr_t)i);
	}
	mc_explore("two", two, NULL);
	for (i = 0; i < 4; i++) {
		sprintf(nm, "pairs/%d", i);
		mc_explore(nm, pairs, (void *)(intptr_t)i);
	}
	for (i = 0; i < 6; i++) {
		sprintf(nm, "zone/%s", zones[i]);
		mc_explore(nm, in_zone, (void *)(intptr_t)i);
	}
	for (i = 1; i <= (mc_thorough ? 9 : 7); i++)
		for (f = 0; f < 7; f++) {
			sprintf(nm, "shorts/%d/%c", i, sal[f]);
			mc_explore(nm, shorts, (void *)(intptr_t)(i * 10 + f));
		}
	return mc_end();
}
