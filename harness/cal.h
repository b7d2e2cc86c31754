/* Reference proleptic Gregorian calendar, by plain counting */
#ifndef CAL_H
#define CAL_H
#include <stdint.h>
#include <stdio.h>
static const char *const cal_wd[7] = { "Sun", "Mon", "Tue", "Wed", "Thu",
	"Fri", "Sat" };
static const char *const cal_mn[12] = { "Jan", "Feb", "Mar", "Apr", "May",
	"Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static inline int cal_leap(int y)
{
	return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
}
static inline int cal_mdays(int y, int m)	/* m: 1..12 */
{
	static const int d[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
		31 };
	return d[m - 1] + (m == 2 && cal_leap(y));
}
/* first day of each year since 1970-01-01, by counting */
#define CAL_Y0 1969
#define CAL_Y1 10001
static long cal_year_day[CAL_Y1 - CAL_Y0 + 1];
static inline void cal_init(void)
{
	int y;
	cal_year_day[0] = -365;
	for (y = CAL_Y0 + 1; y <= CAL_Y1; y++)
		cal_year_day[y - CAL_Y0] = cal_year_day[y - 1 - CAL_Y0] +
			365 + cal_leap(y - 1);
}
static inline long cal_days(int y, int m, int d)
{
	long n = cal_year_day[y - CAL_Y0];
	while (--m > 0)
		n += cal_mdays(y, m);
	return n + d - 1;
}
struct cal { int y, m, d, wd, yd, H, M, S; };
/* local: seconds since 1970-01-01 00:00:00 of the same zone */
static inline void cal_of(int64_t local, struct cal *c)
{
	long day = local >= 0 ? local / 86400 : -((-local + 86399) / 86400);
	int sod = (int)(local - day * 86400), lo = CAL_Y0, hi = CAL_Y1;
	while (lo + 1 < hi) {
		int mid = (lo + hi) / 2;
		if (cal_year_day[mid - CAL_Y0] <= day)
			lo = mid;
		else
			hi = mid;
	}
	c->y = lo;
	c->yd = (int)(day - cal_year_day[lo - CAL_Y0]);
	c->d = c->yd + 1;
	for (c->m = 1; c->d > cal_mdays(c->y, c->m); c->m++)
		c->d -= cal_mdays(c->y, c->m);
	c->wd = (int)(((day % 7) + 7 + 4) % 7);	/* a Thursday */
	c->H = sod / 3600;
	c->M = sod / 60 % 60;
	c->S = sod % 60;
}
#endif
