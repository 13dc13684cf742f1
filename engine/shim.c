#include <stdint.h>
#include <stddef.h>
typedef uint64_t (*H)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
static H h[32];
void verif_set(int i, H f) { h[i] = f; }
#define D(i, name) uint64_t name(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e, uint64_t g) \
  { return h[i](a, b, c, d, e, g); }
D(0, sol_log_) D(1, sol_log_data) D(2, sol_get_clock_sysvar) D(3, sol_get_rent_sysvar) D(4, sol_sha256)
D(5, sol_try_find_program_address) D(6, sol_create_program_address) D(7, sol_invoke_signed_c)
D(8, sol_memcpy_) D(9, sol_memmove_) D(10, sol_memset_) D(11, sol_memcmp_) D(12, sol_log_64_)
D(13, sol_log_pubkey) D(14, sol_log_compute_units_) D(15, sol_panic_) D(16, sol_set_return_data)
D(17, sol_get_stack_height) D(18, sol_remaining_compute_units)
