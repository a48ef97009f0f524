#pragma once
#include "cuda_runtime.h"
enum curandStatus_t { CURAND_STATUS_SUCCESS = 0, CURAND_STATUS_VERSION_MISMATCH = 100, CURAND_STATUS_NOT_INITIALIZED = 101, CURAND_STATUS_ALLOCATION_FAILED = 102, CURAND_STATUS_TYPE_ERROR = 103, CURAND_STATUS_OUT_OF_RANGE = 104,
  CURAND_STATUS_LENGTH_NOT_MULTIPLE = 105, CURAND_STATUS_DOUBLE_PRECISION_REQUIRED = 106, CURAND_STATUS_LAUNCH_FAILURE = 201, CURAND_STATUS_PREEXISTING_FAILURE = 202, CURAND_STATUS_INITIALIZATION_FAILED = 203, CURAND_STATUS_ARCH_MISMATCH = 204, CURAND_STATUS_INTERNAL_ERROR = 999 };
