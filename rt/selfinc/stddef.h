#ifndef VF_STDDEF_H
#define VF_STDDEF_H
typedef unsigned long size_t;
typedef long ptrdiff_t;
typedef int wchar_t;
typedef long double max_align_t;
#define NULL ((void *) 0)
#define offsetof(t, m) ((size_t) &((t *) 0)->m)
#endif
