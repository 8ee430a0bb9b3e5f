/* Fails the n-th allocating call that the extension modules make.
 *
 * Linked into the extensions with -Wl,--wrap for each of the functions.
 * The control block is found through the VF_OOM_CTL symbol, which the harness
 * reads and writes with ctypes: [0] countdown (0 = off), [1] calls seen,
 * [2] failures injected, [3] keep failing after the first failure.
 */
#include <Python.h>
#include <stdlib.h>

long VF_OOM_CTL[4];

static int hit(void)
{
	VF_OOM_CTL[1]++;
	if (VF_OOM_CTL[3] && VF_OOM_CTL[2]) {
		VF_OOM_CTL[2]++;
		return 1;
	}
	if (VF_OOM_CTL[0] > 0 && --VF_OOM_CTL[0] == 0) {
		VF_OOM_CTL[2]++;
		return 1;
	}
	return 0;
}

void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { return hit() ? NULL : __real_malloc(n); }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t n, size_t m) { return hit() ? NULL : __real_calloc(n, m); }
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t n) { return hit() ? NULL : __real_realloc(p, n); }
void *__real_PyMem_Malloc(size_t);
void *__wrap_PyMem_Malloc(size_t n) { return hit() ? NULL : __real_PyMem_Malloc(n); }
void *__real_PyMem_Calloc(size_t, size_t);
void *__wrap_PyMem_Calloc(size_t n, size_t m) { return hit() ? NULL : __real_PyMem_Calloc(n, m); }
void *__real_PyMem_Realloc(void *, size_t);
void *__wrap_PyMem_Realloc(void *p, size_t n) { return hit() ? NULL : __real_PyMem_Realloc(p, n); }

#define OBJ(call) do { if (hit()) { PyErr_NoMemory(); return NULL; } return call; } while (0)
PyObject *__real_PyUnicode_New(Py_ssize_t, Py_UCS4);
PyObject *__wrap_PyUnicode_New(Py_ssize_t n, Py_UCS4 c) { OBJ(__real_PyUnicode_New(n, c)); }
PyObject *__real_PyUnicode_FromKindAndData(int, const void *, Py_ssize_t);
PyObject *__wrap_PyUnicode_FromKindAndData(int k, const void *p, Py_ssize_t n) { OBJ(__real_PyUnicode_FromKindAndData(k, p, n)); }
PyObject *__real_PyUnicode_FromStringAndSize(const char *, Py_ssize_t);
PyObject *__wrap_PyUnicode_FromStringAndSize(const char *p, Py_ssize_t n) { OBJ(__real_PyUnicode_FromStringAndSize(p, n)); }
PyObject *__real_PyUnicode_Substring(PyObject *, Py_ssize_t, Py_ssize_t);
PyObject *__wrap_PyUnicode_Substring(PyObject *o, Py_ssize_t a, Py_ssize_t b) { OBJ(__real_PyUnicode_Substring(o, a, b)); }
PyObject *__real_PyTuple_New(Py_ssize_t);
PyObject *__wrap_PyTuple_New(Py_ssize_t n) { OBJ(__real_PyTuple_New(n)); }
PyObject *__real_PyList_New(Py_ssize_t);
PyObject *__wrap_PyList_New(Py_ssize_t n) { OBJ(__real_PyList_New(n)); }
PyObject *__real__PyObject_GC_New(PyTypeObject *);
PyObject *__wrap__PyObject_GC_New(PyTypeObject *t) { OBJ(__real__PyObject_GC_New(t)); }
int __real_PyList_Append(PyObject *, PyObject *);
int __wrap_PyList_Append(PyObject *l, PyObject *o)
{
	if (hit()) { PyErr_NoMemory(); return -1; }
	return __real_PyList_Append(l, o);
}
