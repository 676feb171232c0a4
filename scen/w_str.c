// Variadic and macro parts of the string API.
#include "sc_str.h"
#include <stdarg.h>
bool w_str_append_fmt_s(char **s, const char *a)
{
	char *pair[2] = {0, *s};
	bool rc = sc_str_append_fmt(pair + 1, "%s", a);
	*s = pair[1];
	return rc;
}
bool w_str_append_fmt_sd(char **s, const char *a, int d)
{
	char *pair[2] = {0, *s};
	bool rc = sc_str_append_fmt(pair + 1, "<%s:%d>", a, d);
	*s = pair[1];
	return rc;
}
char *w_str_va(const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	char *s = sc_str_create_va(fmt, va);
	va_end(va);
	return s;
}
