/* Fault injection and leak accounting for the extension modules (search build only, never /repo's build).
 * Compiled in with -include; counts the allocations of the module and lets the n-th one fail. */
#ifndef VERIF_FAULT_H
#define VERIF_FAULT_H
#include "Python.h"
#include "structmember.h"
#include <stdlib.h>
#include <string.h>
__attribute__((visibility("default"))) long verif_count = 0, verif_fail_at = 0, verif_live = 0, verif_hit = 0;
__attribute__((visibility("default"))) int verif_fill = 0xA5;
static inline int vf_fail(void) { if (++verif_count == verif_fail_at) { verif_hit++; return 1; } return 0; }
static inline void *vf_malloc(size_t n) { if (vf_fail()) return NULL; void *p = malloc(n); if (p) { verif_live++; memset(p, verif_fill, n); } return p; }
static inline void *vf_calloc(size_t a, size_t b) { if (vf_fail()) return NULL; void *p = calloc(a, b); if (p) verif_live++; return p; }
static inline void *vf_realloc(void *q, size_t n) { if (vf_fail()) return NULL; void *p = realloc(q, n); if (p && !q) verif_live++; return p; }
static inline void vf_free(void *p) { if (p) verif_live--; free(p); }
static inline void *vf_pymalloc(size_t n) { if (vf_fail()) return NULL; void *p = PyMem_Malloc(n); if (p) { verif_live++; memset(p, verif_fill, n); } return p; }
static inline void *vf_pycalloc(size_t a, size_t b) { if (vf_fail()) return NULL; void *p = PyMem_Calloc(a, b); if (p) verif_live++; return p; }
static inline void *vf_pyrealloc(void *q, size_t n) { if (vf_fail()) return NULL; void *p = PyMem_Realloc(q, n); if (p && !q) verif_live++; return p; }
static inline void vf_pyfree(void *p) { if (p) verif_live--; PyMem_Free(p); }
static inline PyObject *vf_oom(void) { return PyErr_NoMemory(); }
#define VF(call) (vf_fail() ? vf_oom() : (call))
static inline PyObject *vf_sub(PyObject *s, Py_ssize_t a, Py_ssize_t b) { return VF(PyUnicode_Substring(s, a, b)); }
static inline PyObject *vf_kind(int k, const void *p, Py_ssize_t n) { return VF(PyUnicode_FromKindAndData(k, p, n)); }
static inline PyObject *vf_fromss(const char *p, Py_ssize_t n) { return VF(PyUnicode_FromStringAndSize(p, n)); }
static inline PyObject *vf_froms(const char *p) { return VF(PyUnicode_FromString(p)); }
static inline PyObject *vf_unew(Py_ssize_t n, Py_UCS4 m) { return VF(PyUnicode_New(n, m)); }
static inline PyObject *vf_tnew(Py_ssize_t n) { return VF(PyTuple_New(n)); }
static inline PyObject *vf_lnew(Py_ssize_t n) { return VF(PyList_New(n)); }
static inline int vf_lapp(PyObject *l, PyObject *x) { if (vf_fail()) { vf_oom(); return -1; } return PyList_Append(l, x); }
static inline PyObject *vf_gcnew(PyTypeObject *t) {
	if (vf_fail()) return vf_oom();
	PyObject *o = _PyObject_GC_New(t);
	if (o) memset((char *)o + sizeof(PyObject), verif_fill, t->tp_basicsize - sizeof(PyObject));
	return o;
}
static inline PyObject *vf_iter(PyObject *o) { return VF(PyObject_GetIter(o)); }
#define malloc(n) vf_malloc(n)
#define calloc(a, b) vf_calloc(a, b)
#define realloc(p, n) vf_realloc(p, n)
#define free(p) vf_free(p)
#define PyMem_Malloc(n) vf_pymalloc(n)
#define PyMem_Calloc(a, b) vf_pycalloc(a, b)
#define PyMem_Realloc(p, n) vf_pyrealloc(p, n)
#define PyMem_Free(p) vf_pyfree(p)
#define PyUnicode_Substring(s, a, b) vf_sub(s, a, b)
#define PyUnicode_FromKindAndData(k, p, n) vf_kind(k, p, n)
#define PyUnicode_FromStringAndSize(p, n) vf_fromss(p, n)
#define PyUnicode_FromString(p) vf_froms(p)
#define PyUnicode_New(n, m) vf_unew(n, m)
#define PyTuple_New(n) vf_tnew(n)
#define PyList_New(n) vf_lnew(n)
#define PyList_Append(l, x) vf_lapp(l, x)
#define _PyObject_GC_New(t) vf_gcnew(t)
#define PyObject_GetIter(o) vf_iter(o)
#endif
