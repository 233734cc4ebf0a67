// common prefix of all harness translation units: the real nntl headers from /repo
#pragma once
#include <vp_shim.h>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <ctime>
#include <cstdlib>
#include <nntl/math.h>
#include <nntl/common.h>
#define W extern "C" __attribute__((used))
using namespace nntl;
typedef std::int64_t ll;
typedef math::smatrix<float> M;
typedef math::smatrix_deform<float> MD;
