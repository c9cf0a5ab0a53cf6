/* Small helpers for driving the C interface from ctypes; they hold no logic of their own. */
#include <stdlib.h>
#include <pointless/pointless.h>
#include <pointless/pointless_eval.h>
#include <pointless/pointless_recreate.h>
#include <pointless/pointless_reader.h>
#include <pointless/pointless_reader_helpers.h>
#include <pointless/pointless_reader_utils.h>
#include <pointless/pointless_create.h>
#include <pointless/pointless_hash_table.h>
#include <pointless/pointless_int_ops.h>

#define API __attribute__((visibility("default")))

API size_t vp_sizeof_pointless(void) { return sizeof(pointless_t); }
API size_t vp_sizeof_create(void) { return sizeof(pointless_create_t); }
API size_t vp_sizeof_hash_iter(void) { return sizeof(pointless_hash_iter_state_t); }
API size_t vp_sizeof_eval(void) { return sizeof(intop_eval_context_t); }
