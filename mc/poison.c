/* Array memory straight from malloc: no caching of small blocks, so every array has its exact extent. */
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <Python.h>
#include <numpy/arrayobject.h>
#include <stdlib.h>
static void *m_(void *c, size_t n) { (void)c; return malloc(n ? n : 1); }
static void *c_(void *c, size_t n, size_t k) { (void)c; return n && k ? calloc(n, k) : calloc(1, 1); }
static void *r_(void *c, void *p, size_t n) { (void)c; return realloc(p, n ? n : 1); }
static void f_(void *c, void *p, size_t n) { (void)c; (void)n; free(p); }
static PyDataMem_Handler H = {"plain", 1, {NULL, m_, c_, r_, f_}};
static PyObject *install(PyObject *s, PyObject *a)
{
  PyObject *cap = PyCapsule_New(&H, "mem_handler", NULL);
  if (!cap) return NULL;
  return PyDataMem_SetHandler(cap);
}
static PyMethodDef M[] = {{"install", install, METH_NOARGS, ""}, {0}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "poison", 0, -1, M};
PyMODINIT_FUNC PyInit_poison(void) { import_array(); return PyModule_Create(&D); }
