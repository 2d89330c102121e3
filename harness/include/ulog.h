/* Stand-in for libulog's <ulog.h>: same macros, formats every message for real
 * (so sanitizers see the arguments) and counts it, prints nothing unless asked. */
#ifndef _ULOG_H
#define _ULOG_H
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <errno.h>

#define ULOG_CRIT 2
#define ULOG_ERR 3
#define ULOG_WARN 4
#define ULOG_NOTICE 5
#define ULOG_INFO 6
#define ULOG_DEBUG 7

__attribute__((format(printf, 2, 3), unused, noinline))
static void vp_ulog(int prio, const char *fmt, ...)
{
	char buf[1024];
	int e = errno;
	va_list ap;
	va_start(ap, fmt);
	(void)vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
#ifdef VP_ULOG_PRINT
	fprintf(stderr, "[ulog %d] %s\n", prio, buf);
#endif
	(void)prio;
	errno = e;
}

__attribute__((unused))
static const char *vp_ulog_strerror(int e)
{
	(void)e;
	return "error";
}

#define ULOG_DECLARE_TAG(_t) struct vp_ulog_tag_##_t
#define ULOG_TAG_DECLARE(_t) struct vp_ulog_tag_##_t
#define ULOG_SET_LEVEL(_l) do {} while (0)
#define ULOG_PRI(_p, ...) vp_ulog((int)(_p), __VA_ARGS__)
#define ULOG_STR(_p, s) vp_ulog((int)(_p), "%s", (s))

#define ULOGC(...) vp_ulog(ULOG_CRIT, __VA_ARGS__)
#define ULOGE(...) vp_ulog(ULOG_ERR, __VA_ARGS__)
#define ULOGW(...) vp_ulog(ULOG_WARN, __VA_ARGS__)
#define ULOGN(...) vp_ulog(ULOG_NOTICE, __VA_ARGS__)
#define ULOGI(...) vp_ulog(ULOG_INFO, __VA_ARGS__)
#define ULOGD(...) vp_ulog(ULOG_DEBUG, __VA_ARGS__)

#define ULOGC_THROTTLE(_ms, ...) ULOGC(__VA_ARGS__)
#define ULOGE_THROTTLE(_ms, ...) ULOGE(__VA_ARGS__)
#define ULOGW_THROTTLE(_ms, ...) ULOGW(__VA_ARGS__)
#define ULOGN_THROTTLE(_ms, ...) ULOGN(__VA_ARGS__)
#define ULOGI_THROTTLE(_ms, ...) ULOGI(__VA_ARGS__)
#define ULOGD_THROTTLE(_ms, ...) ULOGD(__VA_ARGS__)
#define ULOGC_CHANGE(_v, ...) ULOGC(__VA_ARGS__)
#define ULOGE_CHANGE(_v, ...) ULOGE(__VA_ARGS__)
#define ULOGW_CHANGE(_v, ...) ULOGW(__VA_ARGS__)
#define ULOGN_CHANGE(_v, ...) ULOGN(__VA_ARGS__)
#define ULOGI_CHANGE(_v, ...) ULOGI(__VA_ARGS__)
#define ULOGD_CHANGE(_v, ...) ULOGD(__VA_ARGS__)

#define ULOG_ERRNO(_fmt, _err, ...) \
	vp_ulog(ULOG_ERR, _fmt " err=%d(%s)", ##__VA_ARGS__, (int)(_err), vp_ulog_strerror((int)(_err)))
#define VP_ULOGX_ERRNO(_p, _err, _fmt, ...) \
	vp_ulog((_p), _fmt " err=%d(%s)", ##__VA_ARGS__, (int)(_err), vp_ulog_strerror((int)(_err)))
#define ULOGC_ERRNO(_err, ...) VP_ULOGX_ERRNO(ULOG_CRIT, _err, __VA_ARGS__)
#define ULOGE_ERRNO(_err, ...) VP_ULOGX_ERRNO(ULOG_ERR, _err, __VA_ARGS__)
#define ULOGW_ERRNO(_err, ...) VP_ULOGX_ERRNO(ULOG_WARN, _err, __VA_ARGS__)
#define ULOGN_ERRNO(_err, ...) VP_ULOGX_ERRNO(ULOG_NOTICE, _err, __VA_ARGS__)
#define ULOGI_ERRNO(_err, ...) VP_ULOGX_ERRNO(ULOG_INFO, _err, __VA_ARGS__)
#define ULOGD_ERRNO(_err, ...) VP_ULOGX_ERRNO(ULOG_DEBUG, _err, __VA_ARGS__)

#define ULOG_ERRNO_RETURN_IF(_cond, _err) do { if (_cond) { \
	ULOGE_ERRNO((_err), "%s", __func__); return; } } while (0)
#define ULOG_ERRNO_RETURN_ERR_IF(_cond, _err) do { if (_cond) { int vp_e_ = (_err); \
	ULOGE_ERRNO(vp_e_, "%s", __func__); return -vp_e_; } } while (0)
#define ULOG_ERRNO_RETURN_VAL_IF(_cond, _err, _val) do { if (_cond) { \
	ULOGE_ERRNO((_err), "%s", __func__); return (_val); } } while (0)
#endif
