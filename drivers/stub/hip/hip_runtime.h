#pragma once
#include "../gpu_stub.h"
typedef gpu_stream* hipStream_t;
enum hipError_t { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorUnknown = 30, hipErrorOther = 77 };
typedef void (*hipStreamCallback_t)(hipStream_t, hipError_t, void*);
inline hipError_t hipStreamAddCallback(hipStream_t st, hipStreamCallback_t cb, void* data, unsigned) {
    return static_cast<hipError_t>(gpu_add_callback(st, [](void* fn, gpu_stream* s, int e, void* d) { reinterpret_cast<hipStreamCallback_t>(fn)(s, static_cast<hipError_t>(e), d); }, reinterpret_cast<void*>(cb), data));
}
