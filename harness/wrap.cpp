// Counts what the library acquires and releases (linked with -Wl,--wrap).
#include <stdlib.h>
#include <stdio.h>
#include <atomic>
#include <set>
#include <string.h>
#include <mutex>
long vf_live_mem = 0, vf_live_file = 0;
int vf_fill = -1;   // what fresh memory holds (-1: left as it is)
static void* filled(void* p, size_t n) { if(p && vf_fill >= 0) memset(p, vf_fill, n); return p; }
static std::mutex mu; static std::set<void*>* own = 0;
static void add(void* p, long& c) { if(!p) return; std::lock_guard<std::mutex> g(mu); if(!own) own = new std::set<void*>; if(own->insert(p).second) c++; }
static void del(void* p, long& c) { if(!p) return; std::lock_guard<std::mutex> g(mu); if(own && own->erase(p)) c--; }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
FILE* __real_popen(const char*, const char*); int __real_pclose(FILE*); FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*);
void* __wrap_malloc(size_t n) { void* p = filled(__real_malloc(n), n); add(p, vf_live_mem); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); add(p, vf_live_mem); return p; }
void* __wrap_realloc(void* q, size_t n) { del(q, vf_live_mem); void* p = __real_realloc(q, n); add(p, vf_live_mem); return p; }
void __wrap_free(void* p) { del(p, vf_live_mem); __real_free(p); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if(!r) { filled(*p, n); add(*p, vf_live_mem); } return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = filled(__real_aligned_alloc(a, n), n); add(p, vf_live_mem); return p; }
FILE* __wrap_popen(const char* a, const char* b) { FILE* f = __real_popen(a, b); add(f, vf_live_file); return f; }
int __wrap_pclose(FILE* f) { del(f, vf_live_file); return __real_pclose(f); }
FILE* __wrap_fopen(const char* a, const char* b) { FILE* f = __real_fopen(a, b); add(f, vf_live_file); return f; }
int __wrap_fclose(FILE* f) { del(f, vf_live_file); return __real_fclose(f); }
}
