/* Log functions: render the message (so that wrong arguments are noticed) and
 * hand it over to the checker. */
#include <stdarg.h>
#include <stdio.h>
#include <errno.h>
#include <string.h>
#include "fmt.h"
#include "util/log.h"

void mc_log_(int level, const char * prefix, const char * msg);

static void out(int level, const char * prefix, int err, int has_err, const char * fmt, va_list ap)
{
	fmt_check(fmt, ap);
	char buf[2048];
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	if (has_err && n >= 0 && (size_t)n < sizeof buf)
		snprintf(buf + n, sizeof buf - n, " (error %d)", err);
	mc_log_(level, prefix, buf);
}
void LOG_logf(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	out(level, prefix, 0, 0, fmt, ap);
	va_end(ap);
}
void LOG_log(enum LOG_LEVEL level, const char * prefix, const char * str)
{
	size_t l = strlen(str);
	(void)l;
	mc_log_(level, prefix, str);
}
void LOG_flush() {}
void LOG_errno(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{
	int err = errno;
	va_list ap;
	va_start(ap, fmt);
	out(level, prefix, err, 1, fmt, ap);
	va_end(ap);
}
void LOG_errno2(enum LOG_LEVEL level, int err, const char * prefix, const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	out(level, prefix, err, 1, fmt, ap);
	va_end(ap);
}
void LOG_errnet(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{
	int err = errno;
	va_list ap;
	va_start(ap, fmt);
	out(level, prefix, err, 1, fmt, ap);
	va_end(ap);
}
void LOG_lock() {}
void LOG_unlock() {}
