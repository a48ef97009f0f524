// Emulated NCCL: see mc/ncclemu.h.
#pragma once
#include "cuda_runtime.h"
#define NCCL_MAJOR 2
#define NCCL_MINOR 20
#define NCCL_PATCH 5
#define NCCL_VERSION(X, Y, Z) (((X) <= 2 && (Y) <= 8) ? (X) * 1000 + (Y) * 100 + (Z) : (X) * 10000 + (Y) * 100 + (Z))
#define NCCL_VERSION_CODE NCCL_VERSION(2, 20, 5)
#define NCCL_UNIQUE_ID_BYTES 128
struct ncclComm;
typedef ncclComm* ncclComm_t;
typedef struct { char internal[NCCL_UNIQUE_ID_BYTES]; } ncclUniqueId;
typedef enum { ncclSuccess = 0, ncclUnhandledCudaError = 1, ncclSystemError = 2, ncclInternalError = 3, ncclInvalidArgument = 4, ncclInvalidUsage = 5, ncclRemoteError = 6, ncclInProgress = 7, ncclNumResults = 8 } ncclResult_t;
typedef struct { int blocking; int cgaClusterSize, minCTAs, maxCTAs; const char* netName; int splitShare; } ncclConfig_t;
#define NCCL_CONFIG_INITIALIZER {1, 0, 0, 0, nullptr, 0}
typedef enum { ncclSum = 0, ncclProd = 1, ncclMax = 2, ncclMin = 3, ncclAvg = 4, ncclNumOps = 5 } ncclRedOp_t;
typedef enum { ncclInt8 = 0, ncclChar = 0, ncclUint8 = 1, ncclInt32 = 2, ncclInt = 2, ncclUint32 = 3, ncclInt64 = 4, ncclUint64 = 5, ncclFloat16 = 6, ncclHalf = 6, ncclFloat32 = 7, ncclFloat = 7, ncclFloat64 = 8, ncclDouble = 8, ncclBfloat16 = 9, ncclNumTypes = 10 } ncclDataType_t;
ncclResult_t ncclGetVersion(int*);
ncclResult_t ncclGetUniqueId(ncclUniqueId*);
ncclResult_t ncclCommInitRankConfig(ncclComm_t*, int nranks, ncclUniqueId, int rank, ncclConfig_t*);
ncclResult_t ncclCommInitRank(ncclComm_t*, int nranks, ncclUniqueId, int rank);
ncclResult_t ncclCommFinalize(ncclComm_t);
ncclResult_t ncclCommDestroy(ncclComm_t);
ncclResult_t ncclCommAbort(ncclComm_t);
ncclResult_t ncclCommGetAsyncError(ncclComm_t, ncclResult_t*);
ncclResult_t ncclCommCount(const ncclComm_t, int*);
ncclResult_t ncclCommCuDevice(const ncclComm_t, int*);
ncclResult_t ncclCommUserRank(const ncclComm_t, int*);
const char* ncclGetErrorString(ncclResult_t);
const char* ncclGetLastError(ncclComm_t);
ncclResult_t ncclGroupStart();
ncclResult_t ncclGroupEnd();
ncclResult_t ncclReduce(const void* send, void* recv, size_t n, ncclDataType_t, ncclRedOp_t, int root, ncclComm_t, cudaStream_t);
ncclResult_t ncclBcast(void* buf, size_t n, ncclDataType_t, int root, ncclComm_t, cudaStream_t);
ncclResult_t ncclBroadcast(const void* send, void* recv, size_t n, ncclDataType_t, int root, ncclComm_t, cudaStream_t);
ncclResult_t ncclAllReduce(const void* send, void* recv, size_t n, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclReduceScatter(const void* send, void* recv, size_t n, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclAllGather(const void* send, void* recv, size_t n, ncclDataType_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclSend(const void* send, size_t n, ncclDataType_t, int peer, ncclComm_t, cudaStream_t);
ncclResult_t ncclRecv(void* recv, size_t n, ncclDataType_t, int peer, ncclComm_t, cudaStream_t);
