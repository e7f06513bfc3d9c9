/* A Python interpreter with the binding of py-axl built in. */
#include <Python.h>
#include <stdio.h>
#include <stdlib.h>

PyObject * vh_py_module = NULL;
void initlibpy_axl (void);
extern size_t __sanitizer_get_current_allocated_bytes (void) __attribute__ ((weak));

PyObject * vh_init_module3 (const char * name, PyMethodDef * methods, const char * doc)
{
	static struct PyModuleDef def;
	def.m_base    = (PyModuleDef_Base) PyModuleDef_HEAD_INIT;
	def.m_name    = name;
	def.m_doc     = doc;
	def.m_size    = -1;
	def.m_methods = methods;
	vh_py_module  = PyModule_Create (&def);
	return vh_py_module;
}

static PyObject * init_binding (void)
{
	initlibpy_axl ();
	return vh_py_module;
}

static PyObject * allocated (PyObject * self, PyObject * args)
{
	return PyLong_FromSize_t (__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes () : 0);
}
static PyMethodDef host_methods[] = {
	{"allocated", allocated, METH_NOARGS, "bytes allocated now"},
	{NULL, NULL, 0, NULL}
};
static struct PyModuleDef host_def = { PyModuleDef_HEAD_INIT, "vhhost", NULL, -1, host_methods };
static PyObject * init_host (void) { return PyModule_Create (&host_def); }

int main (int argc, char ** argv)
{
	PyImport_AppendInittab ("libpy_axl", init_binding);
	PyImport_AppendInittab ("vhhost", init_host);
	return Py_BytesMain (argc, argv);
}
