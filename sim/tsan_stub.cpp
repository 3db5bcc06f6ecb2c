#include "sim.hpp"
namespace sim { void hb_acquire(const void *) {} void hb_release(const void *) {} void hb_fork(int) {} void hb_join(int) {} void tsan_begin() {} }
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64:"
         "malloc_context_size=8:symbolize=0:handle_abort=1:max_allocation_size_mb=5120:detect_odr_violation=0:alloc_dealloc_mismatch=0:print_summary=0:handle_sigfpe=1";
}
