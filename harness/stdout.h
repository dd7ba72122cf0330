/* functions that print; before: emit(text, n), emit_file(f, text, n), OUT_POINT (run in each call) */
#ifndef STDOUT_H
#define STDOUT_H
#include "fmt.h"
static int out_file(FILE * f, const char * s, unsigned n)
{
	OUT_POINT;
	if (f == stdout) emit(s, n);
	else emit_file(f, s, n);
	return n;
}
int mc_vfprintf(FILE * f, const char * fm, va_list ap)
{
	fmt_check(fm, ap);
	static char buf[4096];
	int n = vsnprintf(buf, sizeof buf, fm, ap);
	mc_assert(n >= 0 && n < (int)sizeof buf, "harness: long output");
	char copy[n + 1];
	memcpy(copy, buf, n + 1);
	memset(buf, 0, n);
	return out_file(f, copy, n);
}
int mc_vprintf(const char * fm, va_list ap) { return mc_vfprintf(stdout, fm, ap); }
int mc_printf(const char * fm, ...) { va_list ap; va_start(ap, fm); int n = mc_vfprintf(stdout, fm, ap); va_end(ap); return n; }
int mc_fprintf(FILE * f, const char * fm, ...) { va_list ap; va_start(ap, fm); int n = mc_vfprintf(f, fm, ap); va_end(ap); return n; }
int mc_fputs(const char * s, FILE * f) { return out_file(f, s, strlen(s)); }
int mc_puts(const char * s)
{
	unsigned n = strlen(s);
	char copy[n + 1];
	memcpy(copy, s, n);
	copy[n] = '\n';
	return out_file(stdout, copy, n + 1);
}
int mc_fputc(int c, FILE * f) { char b = c; out_file(f, &b, 1); return c; }
int mc_putc(int c, FILE * f) { return mc_fputc(c, f); }
int mc_putchar(int c) { return mc_fputc(c, stdout); }
size_t mc_fwrite(const void * p, size_t s, size_t n, FILE * f) { out_file(f, p, s * n); return n; }
#endif
