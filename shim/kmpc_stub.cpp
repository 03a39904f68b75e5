// exaloop's OpenMP runtime has these GC callbacks; the stock one here has not. Threads created
// by the stock runtime are unknown to the collector, so programs that use them run with
// GC_DONT_GC=1.
extern "C" __attribute__((weak, visibility("default"))) void
__kmpc_set_gc_callbacks(void *, void *, void *, void *) {}
