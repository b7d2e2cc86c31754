/* stand-ins for the builds without the race detector */
#include "fibers.h"
int tsan_enabled;
void tsan_range(const void *p, size_t n, int w) { (void)p; (void)n; (void)w; }
void tsan_acquire(const void *o) { (void)o; }
void tsan_release(const void *o) { (void)o; }
void tsan_reset(void) {}
void tsan_fork(int c) { (void)c; }
void tsan_join(int c) { (void)c; }
void tsan_forget(const void *p, size_t n) { (void)p; (void)n; }
