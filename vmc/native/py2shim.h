/* Lets the Python 2 extension sources of the package be compiled, unchanged, for the Python here. */
#ifndef PY2SHIM_H
#define PY2SHIM_H
#include "Python.h"
#include "numpy/arrayobject.h"
#include "numpy/npy_math.h"

#ifndef PyArray_DOUBLE
#define PyArray_DOUBLE NPY_DOUBLE
#endif
#ifndef PyArray_INT
#define PyArray_INT NPY_INT
#endif
#ifndef PyArray_LONG
#define PyArray_LONG NPY_LONG
#endif
#ifndef PyArray_ULONG
#define PyArray_ULONG NPY_ULONG
#endif
#ifndef PyArray_QUICKSORT
#define PyArray_QUICKSORT NPY_QUICKSORT
#endif
#ifndef NPY_CONTIGUOUS
#define NPY_CONTIGUOUS NPY_ARRAY_C_CONTIGUOUS
#endif
#ifndef CONTIGUOUS
#define CONTIGUOUS NPY_ARRAY_C_CONTIGUOUS
#endif
#define PyString_FromString PyUnicode_FromString

static inline PyObject *shim_FromDims(int nd, int *d, int type)
{
    npy_intp dims[8];
    int i;
    PyObject *a;
    for (i = 0; i < nd; i++) dims[i] = d[i];
    a = PyArray_ZEROS(nd, dims, type, 0);
    return a;
}
#undef PyArray_FromDims
#define PyArray_FromDims shim_FromDims
#undef PyArray_Copy
#define PyArray_Copy(m) ((PyObject *) PyArray_NewCopy((PyArrayObject *)(m), NPY_ANYORDER))

/* Module initialisation: the Python 2 functions return nothing; the module made is kept here. */
static PyObject *shim_module;
static struct PyModuleDef shim_def = {PyModuleDef_HEAD_INIT, "shim", NULL, -1, NULL};
static inline PyObject *shim_init(const char *name, PyMethodDef *m, const char *doc)
{
    shim_def.m_name = name;
    shim_def.m_doc = doc;
    shim_def.m_methods = m;
    return shim_module = PyModule_Create(&shim_def);
}
#define Py_InitModule(n, m) shim_init(n, m, NULL)
#define Py_InitModule3(n, m, d) shim_init(n, m, d)
#undef import_array
#define import_array() { if (_import_array() < 0) return; }
#undef PyMODINIT_FUNC
#define PyMODINIT_FUNC void
#undef PyObject_HEAD_INIT
#define PyObject_HEAD_INIT(t) 1, t,
#undef PyObject_HEAD
#define PyObject_HEAD Py_ssize_t ob_refcnt; PyTypeObject *ob_type;
#endif
