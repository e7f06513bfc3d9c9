/* The Python binding in py-axl is written for the C API of Python 2.
 * This header, included before each of its sources, maps the few Python 2
 * names it uses onto those of Python 3, so that the sources run unchanged. */
#ifndef VH_PY3COMPAT_H
#define VH_PY3COMPAT_H
#include <Python.h>

/* objects: PyObject_HEAD has the members ob_refcnt and ob_type in Python 2,
 * and the initialiser of a type is followed by one for its ob_size */
#undef  PyObject_HEAD
#define PyObject_HEAD union { PyObject ob_base; struct { Py_ssize_t ob_refcnt; PyTypeObject * ob_type; }; };
#undef  PyObject_HEAD_INIT
#define PyObject_HEAD_INIT(t) .ob_base = { { { 1 }, t }, 0 }, .ob_base.ob_size =
#undef  PyVarObject_HEAD_INIT
#define PyVarObject_HEAD_INIT(t, s) .ob_base = { { { 1 }, t }, (s) },

/* strings */
#define PyString_AsString(o)      ((char *) PyUnicode_AsUTF8 (o))
#define PyString_Check            PyUnicode_Check
#define PyString_FromString       PyUnicode_FromString
#define PyString_FromStringAndSize PyUnicode_FromStringAndSize
#define PyString_FromFormat       PyUnicode_FromFormat
#define PyString_AS_STRING(o)     ((char *) PyUnicode_AsUTF8 (o))
#define PyInt_AS_LONG             PyLong_AsLong
#define PyInt_FromSsize_t         PyLong_FromSsize_t
#define PyUnicode_SetDefaultEncoding(e)
#define PyInt_FromLong            PyLong_FromLong
#define PyInt_AsLong              PyLong_AsLong
#define PyInt_Check               PyLong_Check

/* threads are always initialised */
#undef  PyEval_InitThreads
#define PyEval_InitThreads()

/* module initialisation */
#undef  PyMODINIT_FUNC
#define PyMODINIT_FUNC void
extern PyObject * vh_py_module;
PyObject * vh_init_module3 (const char * name, PyMethodDef * methods, const char * doc);
#define Py_InitModule3 vh_init_module3
#define Py_InitModule(name, methods) vh_init_module3 (name, methods, NULL)
#endif
