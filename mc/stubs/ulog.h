/* Stand-in for Parrot's libulog, which is not installed here: the log calls
 * only evaluate (and type check) their arguments, nothing is printed. */
#ifndef VERIF_ULOG_H
#define VERIF_ULOG_H
#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#ifdef __cplusplus
extern "C" {
#endif
void verif_ulog(int prio, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
#ifdef __cplusplus
}
#endif

#define ULOG_DECLARE_TAG(_t) struct verif_ulog_unused_decl
#define ULOG_SET_LEVEL(_l) do {} while (0)
#define ULOG_CRIT 2
#define ULOG_ERR 3
#define ULOG_WARN 4
#define ULOG_NOTICE 5
#define ULOG_INFO 6
#define ULOG_DEBUG 7
#define ULOG_PRI(_p, ...) verif_ulog(_p, __VA_ARGS__)
#define ULOGC(...) verif_ulog(2, __VA_ARGS__)
#define ULOGE(...) verif_ulog(3, __VA_ARGS__)
#define ULOGW(...) verif_ulog(4, __VA_ARGS__)
#define ULOGN(...) verif_ulog(5, __VA_ARGS__)
#define ULOGI(...) verif_ulog(6, __VA_ARGS__)
#define ULOGD(...) verif_ulog(7, __VA_ARGS__)
#define ULOG_ERRNO(_f, _err, ...) \
	verif_ulog(3, _f " err=%d(%s)", ##__VA_ARGS__, (int)(_err), \
		   strerror(_err))
#define ULOGC_ERRNO(_err, _f, ...) ULOG_ERRNO(_f, _err, ##__VA_ARGS__)
#define ULOGE_ERRNO(_err, _f, ...) ULOG_ERRNO(_f, _err, ##__VA_ARGS__)
#define ULOGW_ERRNO(_err, _f, ...) ULOG_ERRNO(_f, _err, ##__VA_ARGS__)
#define ULOGN_ERRNO(_err, _f, ...) ULOG_ERRNO(_f, _err, ##__VA_ARGS__)
#define ULOGI_ERRNO(_err, _f, ...) ULOG_ERRNO(_f, _err, ##__VA_ARGS__)
#define ULOGD_ERRNO(_err, _f, ...) ULOG_ERRNO(_f, _err, ##__VA_ARGS__)
#define ULOG_ERRNO_RETURN_IF(_cond, _err) do { if (_cond) { \
	ULOG_ERRNO("", (_err)); return; } } while (0)
#define ULOG_ERRNO_RETURN_ERR_IF(_cond, _err) do { if (_cond) { \
	int verif_err_ = (_err); \
	ULOG_ERRNO("", verif_err_); return -(verif_err_); } } while (0)
#define ULOG_ERRNO_RETURN_VAL_IF(_cond, _err, _val) do { if (_cond) { \
	ULOG_ERRNO("", (_err)); return (_val); } } while (0)
#define ULOG_ERRNO_RETURN_ERR(_err, ...) do { return -(_err); } while (0)
#endif
