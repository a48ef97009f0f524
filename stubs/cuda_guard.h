// Stand-in for the device guard, which exists only in builds with CUDA.
#pragma once
#ifndef USE_CUDA
namespace tinytorch::cuda {
struct CudaDeviceGuard { explicit CudaDeviceGuard(int) {} };
}
#endif
