/* Included before the generated code of the extension: its uses of the interpreter are checked to happen while the calling
task holds the interpreter lock. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
extern "C" {
PyThreadState *polysim_SaveThread();
void polysim_RestoreThread(PyThreadState*);
void polysim_need_gil();
}
#define PyEval_SaveThread polysim_SaveThread
#define PyEval_RestoreThread polysim_RestoreThread
#undef Py_INCREF
#undef Py_DECREF
#undef Py_XINCREF
#undef Py_XDECREF
#undef Py_NewRef
#undef Py_XNewRef
#define Py_INCREF(o) (polysim_need_gil(), Py_INCREF(_PyObject_CAST(o)))
#define Py_DECREF(o) (polysim_need_gil(), Py_DECREF(_PyObject_CAST(o)))
#define Py_XINCREF(o) (polysim_need_gil(), Py_XINCREF(_PyObject_CAST(o)))
#define Py_XDECREF(o) (polysim_need_gil(), Py_XDECREF(_PyObject_CAST(o)))
#define Py_NewRef(o) (polysim_need_gil(), Py_NewRef(_PyObject_CAST(o)))
#define Py_XNewRef(o) (polysim_need_gil(), Py_XNewRef(_PyObject_CAST(o)))
#define PyErr_NoMemory() (polysim_need_gil(), PyErr_NoMemory())
#define PyErr_Occurred() (polysim_need_gil(), PyErr_Occurred())
#define PyErr_SetString(a,b) (polysim_need_gil(), PyErr_SetString(a,b))
#define PyTuple_New(n) (polysim_need_gil(), PyTuple_New(n))
#define PyLong_FromLong(n) (polysim_need_gil(), PyLong_FromLong(n))
