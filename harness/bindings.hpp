// The Python bindings of the repository, compiled against the stand-in for pybind11 in engine/pyshim.
#pragma once
#include "common.hpp"
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/eigen.h>
#include <python/factorama/_factorama.cpp>
using pyshim::Val; using pyshim::Args; using pyshim::Kw;
