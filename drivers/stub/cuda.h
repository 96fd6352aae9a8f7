#pragma once
#include "gpu_stub.h"
typedef gpu_stream* cudaStream_t;
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorUnknown = 30, cudaErrorOther = 77 };
typedef void (*cudaStreamCallback_t)(cudaStream_t, cudaError_t, void*);
inline cudaError_t cudaStreamAddCallback(cudaStream_t st, cudaStreamCallback_t cb, void* data, unsigned) {
    return static_cast<cudaError_t>(gpu_add_callback(st, [](void* fn, gpu_stream* s, int e, void* d) { reinterpret_cast<cudaStreamCallback_t>(fn)(s, static_cast<cudaError_t>(e), d); }, reinterpret_cast<void*>(cb), data));
}
