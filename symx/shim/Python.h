#pragma once
#include <stddef.h>
#include <sys/types.h>
typedef ssize_t Py_ssize_t;
extern "C" void __symx_gil(int held);
struct PyThreadState;
static inline PyThreadState* PyEval_SaveThread() {
  __symx_gil(0);
  return nullptr;
}
static inline void PyEval_RestoreThread(PyThreadState*) { __symx_gil(1); }
#define Py_BEGIN_ALLOW_THREADS { PyThreadState* _save = PyEval_SaveThread();
#define Py_END_ALLOW_THREADS PyEval_RestoreThread(_save); }
