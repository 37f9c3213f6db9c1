// The Python module, built into the harness.
#include <Python.h>

extern "C" PyObject* PyInit_pygenex();

void registerModule() { PyImport_AppendInittab("pygenex", PyInit_pygenex); }
