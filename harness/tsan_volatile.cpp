// For device code, whose locks are given back with a volatile store after a fence: the race detector is told of it
extern "C" { void __tsan_acquire (void*); void __tsan_release (void*);
#define V(n) void __tsan_volatile_read##n (void* p) { __tsan_acquire(p); } void __tsan_volatile_write##n (void* p) { __tsan_release(p); } void __tsan_unaligned_volatile_read##n (void* p) { __tsan_acquire(p); } void __tsan_unaligned_volatile_write##n (void* p) { __tsan_release(p); }
V(1) V(2) V(4) V(8) V(16)
}
