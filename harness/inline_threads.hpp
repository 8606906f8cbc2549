// Worker threads run to completion where they are created while jps_inline_threads is set: every exploration is
// deterministic. The interleavings of the worker threads are the subject of C11.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
static bool jps_inline_threads = true; static int jps_threads_open = 0;       // created and not joined
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    if (jps_inline_threads) { jps_threads_open++; f(x); *t = (pthread_t)1; return 0; }
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create"); return real(t, a, f, x);
}
extern "C" int pthread_join(pthread_t t, void** r) {
    if (t == (pthread_t)1) { jps_threads_open--; return 0; }
    static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); return real(t, r);
}
