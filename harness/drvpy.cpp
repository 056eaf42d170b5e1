#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include "drvpy.h"
static const DrvPyHost *H;
static PyObject *glue;
static PyThreadState *mainst;
static PyThreadState *ts[256];

struct Lock {                                   // run as this rank's Python thread
  Lock() {
    int r = H->me();
    if (r < 0 || r >= 256) { PyEval_RestoreThread(mainst); return; }
    if (!ts[r]) ts[r] = PyThreadState_New(mainst->interp);
    PyEval_RestoreThread(ts[r]);
  }
  ~Lock() { PyEval_SaveThread(); }
};
static std::string errtext() {
  PyObject *e = PyErr_GetRaisedException();
  std::string s = "unknown error";
  if (e) {
    PyObject *t = PyObject_Str(e);
    s = std::string(Py_TYPE(e)->tp_name) + ": " + (t ? PyUnicode_AsUTF8(t) : "?");
    Py_XDECREF(t);
    Py_DECREF(e);
  }
  return s;
}
static PyObject *call(const char *fn, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  PyObject *a = Py_VaBuildValue(fmt, ap);
  va_end(ap);
  PyObject *f = a ? PyObject_GetAttrString(glue, fn) : nullptr;
  PyObject *r = f ? PyObject_CallObject(f, a) : nullptr;
  Py_XDECREF(f);
  Py_XDECREF(a);
  if (!r) { std::string t = std::string(fn) + "() raised " + errtext(); PyEval_SaveThread(); H->fail("python-error", t.c_str()); }
  return r;
}
static PyObject *A(const void *p) { return Py_BuildValue("(KLi)", (unsigned long long) p, (long long) (p ? H->bytes(p) / H->scalar : 0), H->scalar); }
static PyObject *V(const int *a, int n) { PyObject *t = PyTuple_New(n); for (int i = 0; i < n; i++) PyTuple_SET_ITEM(t, i, PyLong_FromLong(a[i])); return t; }
static void sizes(PyObject *r, int *z, int n, const char *fn) {
  if (PyTuple_GET_SIZE(r) != n) { Py_DECREF(r); PyEval_SaveThread(); H->fail("python-error", (std::string(fn) + "() returns another number of lengths").c_str()); }
  for (int i = 0; i < n; i++) z[i] = (int) PyLong_AsLong(PyTuple_GET_ITEM(r, i));
}
static PyObject *O(void *o) { return (PyObject *) o; }
static void *f_create(int k, int c, int p) { Lock l; return call("create", "(iii)", k, c, p); }
static void f_destroy(void *o) { Lock l; Py_DECREF(call("destroy", "(O)", O(o))); Py_DECREF(O(o)); }
static void f_set(void *o, const char *k, int v) { Lock l; Py_DECREF(call("sset", "(Osi)", O(o), k, v)); }
static void f_setup(void *o, const int *a, int na, int *z, int ns) { Lock l; PyObject *r = call("setup", "(ON)", O(o), V(a, na)); sizes(r, z, ns, "setup"); Py_DECREF(r); }
static void f_tune(void *o, const int *a, int na, int *z, int f, int ni, double tm, int tf) { Lock l; PyObject *r = call("tune", "(ONiidi)", O(o), V(a, na), f, ni, tm, tf); sizes(r, z, 3, "tune"); Py_DECREF(r); }
static void f_setup_memory(void *o, void *s, void *r) { Lock l; Py_DECREF(call("setup_memory", "(ONN)", O(o), A(s), A(r))); }
static void f_compute(void *o, void *i, void *u, int f) { Lock l; Py_DECREF(call("compute", "(ONNi)", O(o), A(i), A(u), f)); }
static void f_only_1d(void *o, void *i, int f) { Lock l; Py_DECREF(call("only_1d", "(ONi)", O(o), A(i), f)); }
static void f_only_remaps(void *o, void *i, void *u, int f) { Lock l; Py_DECREF(call("only_remaps", "(ONNi)", O(o), A(i), A(u), f)); }
static void f_only_one_remap(void *o, void *i, void *u, int f, int w) { Lock l; Py_DECREF(call("only_one_remap", "(ONNii)", O(o), A(i), A(u), f, w)); }
static void f_remap(void *o, void *i, void *u, void *s, void *r) { Lock l; Py_DECREF(call("remap", "(ONNNN)", O(o), A(i), A(u), A(s), A(r))); }
static long f_geti(void *o, const char *k) { Lock l; PyObject *r = call("get_int", "(Os)", O(o), k); long v = PyLong_AsLong(r); Py_DECREF(r); return v; }
static double f_getd(void *o, const char *k) { Lock l; PyObject *r = call("get_double", "(Os)", O(o), k); double v = PyFloat_AsDouble(r); Py_DECREF(r); return v; }
static const char *f_gets(void *o, const char *k, int *len) {
  static std::string keep;
  Lock l; PyObject *r = call("get_string", "(Os)", O(o), k);
  if (r == Py_None) { *len = -1; Py_DECREF(r); return nullptr; }
  Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(r, &n);
  keep.assign(s, n); *len = (int) n; Py_DECREF(r);
  return keep.c_str();
}
static const int *f_getiv(void *o, const char *k, int *len) {
  static std::vector<int> keep;
  Lock l; PyObject *r = call("get_int_vector", "(Os)", O(o), k);
  if (r == Py_None) { Py_DECREF(r); return nullptr; }
  *len = (int) PyList_Size(r); keep.clear();
  for (int i = 0; i < *len; i++) keep.push_back((int) PyLong_AsLong(PyList_GET_ITEM(r, i)));
  keep.resize(keep.size() + 16, -7);
  Py_DECREF(r);
  return keep.data();
}
static const double *f_getdv(void *o, const char *k, int *len) {
  static std::vector<double> keep;
  Lock l; PyObject *r = call("get_double_vector", "(Os)", O(o), k);
  if (r == Py_None) { Py_DECREF(r); return nullptr; }
  *len = (int) PyList_Size(r); keep.clear();
  for (int i = 0; i < *len; i++) keep.push_back(PyFloat_AsDouble(PyList_GET_ITEM(r, i)));
  keep.resize(keep.size() + 16, -7);
  Py_DECREF(r);
  return keep.data();
}
static const DrvPy T = {f_create, f_destroy, f_set, f_setup, f_tune, f_setup_memory, f_compute, f_only_1d, f_only_remaps, f_only_one_remap, f_remap, f_geti, f_getd, f_gets, f_getiv, f_getdv};

extern "C" const DrvPy *drvpy_start(const DrvPyHost *h, const char *gluedir, const char *py, const char *lib, int world) {
  H = h;
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  setenv("OMP_NUM_THREADS", "1", 1);
  PyConfig c;
  PyConfig_InitIsolatedConfig(&c);
  c.use_hash_seed = 1; c.hash_seed = 0;
  c.write_bytecode = 0;
  c.install_signal_handlers = 0;
  c.site_import = 0;
  PyConfig_SetBytesString(&c, &c.home, "/usr");
  PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3");
  PyStatus st = Py_InitializeFromConfig(&c);
  PyConfig_Clear(&c);
  if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg ? st.err_msg : "?"); return nullptr; }
  std::string s = "import sys, gc\ngc.disable()\nsys.path[:0] = ['" + std::string(gluedir) + "', '/opt/veriftools/pyvenv/lib/python3.12/site-packages']\n";
  if (PyRun_SimpleString(s.c_str())) return nullptr;
  glue = PyImport_ImportModule("pyglue");
  if (!glue) { fprintf(stderr, "python: %s\n", errtext().c_str()); return nullptr; }
  PyObject *r = PyObject_CallMethod(glue, "load", "ssi", py, lib, world);
  if (!r) { std::string t = errtext(); fprintf(stderr, "python: %s\n", t.c_str()); PyEval_SaveThread(); h->fail("python-error", ("fftmpi.py cannot be imported: " + t).c_str()); return nullptr; }
  Py_DECREF(r);
  mainst = PyEval_SaveThread();
  return &T;
}
