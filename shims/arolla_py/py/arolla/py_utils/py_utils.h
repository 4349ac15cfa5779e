// Stand-in for arolla's py/arolla/py_utils/py_utils.h (not available offline).
// Implements the documented behaviour of the helpers koladata's standalone
// Python extensions use.
#ifndef VERIF_SHIM_PY_AROLLA_PY_UTILS_PY_UTILS_H_
#define VERIF_SHIM_PY_AROLLA_PY_UTILS_PY_UTILS_H_

#include <Python.h>

#include <cassert>
#include <cstddef>
#include <utility>

#include "absl/types/span.h"

namespace arolla::python {

inline void DCheckPyGIL() { assert(PyGILState_Check()); }
inline void CheckPyGIL() {
  if (!PyGILState_Check()) __builtin_trap();
}

class AcquirePyGIL {
 public:
  AcquirePyGIL() : state_(PyGILState_Ensure()) {}
  ~AcquirePyGIL() { PyGILState_Release(state_); }

 private:
  PyGILState_STATE state_;
};

class ReleasePyGIL {
 public:
  ReleasePyGIL() : state_(PyEval_SaveThread()) {}
  ~ReleasePyGIL() { PyEval_RestoreThread(state_); }

 private:
  PyThreadState* state_;
};

// Owning smart pointer.
class PyObjectPtr {
 public:
  PyObjectPtr() = default;
  PyObjectPtr(std::nullptr_t) {}
  PyObjectPtr(const PyObjectPtr& o) : p_(o.p_) { Py_XINCREF(p_); }
  PyObjectPtr(PyObjectPtr&& o) noexcept : p_(std::exchange(o.p_, nullptr)) {}
  PyObjectPtr& operator=(const PyObjectPtr& o) {
    PyObjectPtr tmp(o);
    std::swap(p_, tmp.p_);
    return *this;
  }
  PyObjectPtr& operator=(PyObjectPtr&& o) noexcept {
    if (this != &o) {
      PyObject* old = std::exchange(p_, std::exchange(o.p_, nullptr));
      Py_XDECREF(old);
    }
    return *this;
  }
  PyObjectPtr& operator=(std::nullptr_t) {
    reset();
    return *this;
  }
  ~PyObjectPtr() { Py_XDECREF(p_); }

  static PyObjectPtr Own(PyObject* p) {
    PyObjectPtr r;
    r.p_ = p;
    return r;
  }
  static PyObjectPtr NewRef(PyObject* p) {
    Py_XINCREF(p);
    return Own(p);
  }

  PyObject* get() const { return p_; }
  PyObject* release() { return std::exchange(p_, nullptr); }
  void reset() {
    PyObject* old = std::exchange(p_, nullptr);
    Py_XDECREF(old);
  }
  explicit operator bool() const { return p_ != nullptr; }
  bool operator==(std::nullptr_t) const { return p_ == nullptr; }
  bool operator!=(std::nullptr_t) const { return p_ != nullptr; }
  bool operator==(const PyObjectPtr& o) const { return p_ == o.p_; }
  bool operator!=(const PyObjectPtr& o) const { return p_ != o.p_; }

 private:
  PyObject* p_ = nullptr;
};

using PyObjectGILSafePtr = PyObjectPtr;

// Returns a span over a tuple or a list; false (no Python error) otherwise.
inline bool PyTuple_AsSpan(PyObject* py_obj, absl::Span<PyObject*>* result) {
  if (PyTuple_Check(py_obj)) {
    *result = absl::Span<PyObject*>(
        reinterpret_cast<PyTupleObject*>(py_obj)->ob_item,
        PyTuple_GET_SIZE(py_obj));
    return true;
  }
  if (PyList_Check(py_obj)) {
    *result = absl::Span<PyObject*>(
        reinterpret_cast<PyListObject*>(py_obj)->ob_item,
        PyList_GET_SIZE(py_obj));
    return true;
  }
  return false;
}

}  // namespace arolla::python

#endif
