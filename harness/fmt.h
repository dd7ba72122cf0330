/* what printf would read: every string argument is scanned by instrumented code */
#ifndef FMT_H
#define FMT_H
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
static inline void fmt_check(const char * f, va_list ap0)
{
	va_list ap;
	va_copy(ap, ap0);
	for (; *f; ++f) {
		if (*f != '%') continue;
		++f;
		while (*f && strchr("-+ #0", *f)) ++f;
		long prec = -1;
		if (*f == '*') { (void)va_arg(ap, int); ++f; }
		while (*f >= '0' && *f <= '9') ++f;
		if (*f == '.') {
			++f;
			prec = 0;
			if (*f == '*') { prec = va_arg(ap, int); ++f; }
			while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0';
		}
		int l = 0;
		for (;; ++f) {
			if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l = 1;
			else if (*f != 'h') break;
		}
		switch (*f) {
		case '%': break;
		case 's': {
			const char * s = va_arg(ap, const char *);
			long n = 0;
			if (s) while ((prec < 0 || n < prec) && s[n]) ++n;
			break;
		}
		case 'e': case 'f': case 'g': case 'E': case 'F': case 'G': case 'a': (void)va_arg(ap, double); break;
		case 'p': (void)va_arg(ap, void *); break;
		case 0: va_end(ap); return;
		default: if (l) (void)va_arg(ap, long); else (void)va_arg(ap, int);
		}
	}
	va_end(ap);
}
#endif
