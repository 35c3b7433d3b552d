// Allocation hooks of the code under test: live blocks, failure injection.
#pragma once
#include "common.hpp"
extern "C" {
extern void* (*hook_malloc)(size_t); extern void* (*hook_realloc)(void*, size_t); extern void (*hook_free)(void*);
}
static std::set<void*> live; static int failAt; static bool injected; static std::string heapError;
static void* drv_alloc(void* old, size_t n) {
    if (failAt && !--failAt) { injected = true; return 0; }
    if (n > (1u << 28)) { injected = true; return 0; }
    if (old && !live.count(old)) { heapError = "realloc of a block that is not live"; return 0; }
    // the contents of new memory are arbitrary
    void* p;
    if (old) { p = realloc(old, n); live.erase(old); } else { p = malloc(n); memset(p, 0xA5, n); }
    if (p) live.insert(p);
    return p;
}
static void* drv_malloc(size_t n) { return drv_alloc(0, n); }
static void* drv_realloc(void* p, size_t n) { return drv_alloc(p, n); }
static void drv_free(void* p) { if (!p) return; if (!live.erase(p)) { heapError = "a block is freed that is not live"; return; } free(p); }
static void heap_begin() { for (void* p : live) free(p); live.clear(); failAt = 0; injected = false; heapError.clear(); hook_malloc = drv_malloc; hook_realloc = drv_realloc; hook_free = drv_free; }
// tagged checks: a deviation that concerns other properties only ends the case
struct Skip {};
static inline bool mine(const char* tags) { return strstr(tags, prop().c_str()) != 0; }
#define CHECKT(tags, c, ...) do { if (!(c)) { if (mine(tags)) fail(strf(__VA_ARGS__)); throw Skip(); } } while (0)
