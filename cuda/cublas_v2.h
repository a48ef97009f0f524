#pragma once
#include "cuda_runtime.h"
struct cublasContext; typedef cublasContext* cublasHandle_t;
enum cublasStatus_t { CUBLAS_STATUS_SUCCESS = 0, CUBLAS_STATUS_NOT_INITIALIZED = 1, CUBLAS_STATUS_ALLOC_FAILED = 3, CUBLAS_STATUS_INVALID_VALUE = 7, CUBLAS_STATUS_ARCH_MISMATCH = 8,
  CUBLAS_STATUS_MAPPING_ERROR = 11, CUBLAS_STATUS_EXECUTION_FAILED = 13, CUBLAS_STATUS_INTERNAL_ERROR = 14, CUBLAS_STATUS_NOT_SUPPORTED = 15, CUBLAS_STATUS_LICENSE_ERROR = 16 };
enum cublasOperation_t { CUBLAS_OP_N = 0, CUBLAS_OP_T = 1, CUBLAS_OP_C = 2 };
enum cublasMath_t { CUBLAS_DEFAULT_MATH = 0, CUBLAS_TENSOR_OP_MATH = 1, CUBLAS_PEDANTIC_MATH = 2, CUBLAS_TF32_TENSOR_OP_MATH = 3 };
enum cudaDataType_t { CUDA_R_32F = 0, CUDA_R_64F = 1, CUDA_R_16F = 2, CUDA_R_8I = 3, CUDA_R_32I = 10, CUDA_R_16BF = 14 };
typedef cudaDataType_t cudaDataType;
enum cublasComputeType_t { CUBLAS_COMPUTE_16F = 64, CUBLAS_COMPUTE_32F = 68 };
enum cublasGemmAlgo_t { CUBLAS_GEMM_DEFAULT = -1, CUBLAS_GEMM_DEFAULT_TENSOR_OP = 99 };
cublasStatus_t cublasCreate(cublasHandle_t*);
cublasStatus_t cublasDestroy(cublasHandle_t);
cublasStatus_t cublasSetStream(cublasHandle_t, cudaStream_t);
cublasStatus_t cublasSetMathMode(cublasHandle_t, cublasMath_t);
cublasStatus_t cublasSgemm(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const float* alpha, const float* A, int lda, const float* B, int ldb, const float* beta, float* C, int ldc);
cublasStatus_t cublasGemmEx(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const void* alpha, const void* A, cudaDataType, int lda, const void* B, cudaDataType, int ldb, const void* beta, void* C, cudaDataType, int ldc, int compute, cublasGemmAlgo_t);
cublasStatus_t cublasSgemmStridedBatched(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const float* alpha, const float* A, int lda, long long sa, const float* B, int ldb, long long sb, const float* beta, float* C, int ldc, long long sc, int count);
cublasStatus_t cublasGemmStridedBatchedEx(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const void* alpha, const void* A, cudaDataType, int lda, long long sa, const void* B, cudaDataType, int ldb, long long sb, const void* beta, void* C, cudaDataType, int ldc, long long sc, int count, int compute, cublasGemmAlgo_t);
cublasStatus_t cublasSgemmBatched(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const float* alpha, const float* const A[], int lda, const float* const B[], int ldb, const float* beta, float* const C[], int ldc, int count);
cublasStatus_t cublasGemmBatchedEx(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const void* alpha, const void* const A[], cudaDataType, int lda, const void* const B[], cudaDataType, int ldb, const void* beta, void* const C[], cudaDataType, int ldc, int count, int compute, cublasGemmAlgo_t);
