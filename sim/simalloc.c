/* numpy data-memory handler (NEP 49) that can fail the n-th allocation.
 * This is the allocation seam: every numpy array body allocated by the code
 * under test goes through it, whichever numpy function asks for it. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>

static long long armed = 0, count = 0, fired = 0, sticky = 0;

static int hit(void) {
    count++;
    if (armed <= 0) return 0;
    if (count == armed || (sticky && count > armed)) { fired++; return 1; }
    return 0;
}
static void *h_malloc(void *c, size_t s) { if (hit()) return NULL; return malloc(s ? s : 1); }
static void *h_calloc(void *c, size_t n, size_t s) { if (hit()) return NULL; return calloc(n ? n : 1, s ? s : 1); }
static void *h_realloc(void *c, void *p, size_t s) { if (hit()) return NULL; return realloc(p, s ? s : 1); }
static void h_free(void *c, void *p, size_t s) { free(p); }

static PyDataMem_Handler handler = { "simalloc", 1, { NULL, h_malloc, h_calloc, h_realloc, h_free } };

static PyObject *install(PyObject *self, PyObject *a) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    return old;
}
static PyObject *arm(PyObject *self, PyObject *a) {
    long long n; int st = 0;
    if (!PyArg_ParseTuple(a, "L|p", &n, &st)) return NULL;
    armed = n; sticky = st; count = 0; fired = 0;
    Py_RETURN_NONE;
}
static PyObject *disarm(PyObject *self, PyObject *a) {
    long long c = count, f = fired;
    armed = 0; count = 0; fired = 0;
    return Py_BuildValue("LL", c, f);
}
static PyMethodDef M[] = {
    {"install", install, METH_NOARGS, ""}, {"arm", arm, METH_VARARGS, ""},
    {"disarm", disarm, METH_NOARGS, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef D = { PyModuleDef_HEAD_INIT, "simalloc", NULL, -1, M };
PyMODINIT_FUNC PyInit_simalloc(void) { import_array(); return PyModule_Create(&D); }
