// Stand-in for the GPU runtimes: a stream is a record, a callback is queued and fired later by one of the driver's "runtime" threads.
#pragma once
#include <initializer_list>
#include <set>
#include <tuple>
#include <vector>
struct gpu_stream { int op = 0, idx = 0, status = 0, refuse = 0; bool slow = false; };
typedef void (*gpu_callback)(gpu_stream*, int, void*);
int gpu_add_callback(gpu_stream* st, void (*call)(void* fn, gpu_stream* st, int status, void* data), void* fn, void* data);
