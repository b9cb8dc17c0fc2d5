// The solver's Problem as it was when it still had local parameterizations (the installed one has manifolds only): the
// installed header, with the member this repository calls declared in addition.
#pragma once
namespace ceres { class LocalParameterization; }
#define IsParameterBlockConstant VpUnused__(); void SetParameterization(double* values, LocalParameterization* local_parameterization); bool IsParameterBlockConstant
#include_next <ceres/problem.h>
#undef IsParameterBlockConstant
