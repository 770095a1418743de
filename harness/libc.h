// Small libc models for symbolic execution (the native replay uses the real libc).
#pragma once
#ifdef VT_CBMC
#include <stdarg.h>
// printf family: %d %i %u %X %x %c %s %.*s %% %n with 0, width and *
static int vt_vsprintf(char* out, int cap, const char* f, va_list ap){
	int n = 0;
#define VT_PUT(ch) do { if (cap < 0 || n < cap - 1) out[n] = (ch); n++; } while (0)
	for (int i = 0; f[i]; ++i){
		if (f[i] != '%'){ VT_PUT(f[i]); continue; }
		++i;
		int zero = 0, width = 0, prec = -1;
		if (f[i] == '0'){ zero = 1; ++i; }
		if (f[i] == '*'){ width = va_arg(ap, int); ++i; }
		else while (f[i] >= '0' && f[i] <= '9'){ width = width * 10 + (f[i] - '0'); ++i; }
		if (f[i] == '.'){
			++i; prec = 0;
			if (f[i] == '*'){ prec = va_arg(ap, int); ++i; }
			else while (f[i] >= '0' && f[i] <= '9'){ prec = prec * 10 + (f[i] - '0'); ++i; }
		}
		if (f[i] == 'l') ++i;
		if (f[i] == 'X' || f[i] == 'x'){
			unsigned v = va_arg(ap, unsigned);
			int k = 1;
			while (k < 8 && (v >> (4 * k))) ++k;
			for (int w = k; w < width; ++w) VT_PUT(zero ? '0' : ' ');
			for (int d = k - 1; d >= 0; --d){
				unsigned x = (v >> (4 * d)) & 15;
				VT_PUT(x < 10 ? '0' + x : (f[i] == 'X' ? 'A' : 'a') + x - 10);
			}
		} else if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u'){
			int v = va_arg(ap, int);
			unsigned u = f[i] != 'u' && v < 0 ? -(unsigned)v : (unsigned)v;
			char t[12]; int k = 0;
			do { t[k++] = '0' + u % 10; u /= 10; } while (u && k < 11);
			int neg = f[i] != 'u' && v < 0;
			if (neg && zero) VT_PUT('-');
			for (int w = k + neg; w < width; ++w) VT_PUT(zero ? '0' : ' ');
			if (neg && !zero) VT_PUT('-');
			while (k > 0) VT_PUT(t[--k]);
		} else if (f[i] == 'c'){
			VT_PUT((char)va_arg(ap, int));
		} else if (f[i] == 's'){
			const char* s = va_arg(ap, const char*);
			for (int k = 0; (prec < 0 || k < prec) && s[k]; ++k) VT_PUT(s[k]);
		} else if (f[i] == 'n'){
			*va_arg(ap, int*) = n;
		} else {
			VT_PUT(f[i]);
		}
	}
	if (cap < 0) out[n] = 0; else if (cap > 0) out[n < cap ? n : cap - 1] = 0;
	return n;
}
int sprintf(char* out, const char* f, ...){
	va_list ap; va_start(ap, f);
	int n = vt_vsprintf(out, -1, f, ap);
	va_end(ap);
	return n;
}
int snprintf(char* out, size_t cap, const char* f, ...){
	va_list ap; va_start(ap, f);
	int n = vt_vsprintf(out, (int)cap, f, ap);
	va_end(ap);
	return n;
}
#endif
