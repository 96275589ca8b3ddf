// Stand-in: everything is in pybind11.h.
#pragma once
#include "pybind11/pybind11.h"
