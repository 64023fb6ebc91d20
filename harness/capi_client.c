/* The C side of the harness: calls the library the way a C program does. */
#include "capi_client.h"
#include <libunicode/capi.h>

static void* create(void) { return u8u32_stream_convert_create(); }
static int run(void* h, char b, uint32_t* out) { return u8u32_stream_convert_run((u8u32_stream_state_t) h, b, out); }
static void* destroy(void* h)
{
    u8u32_stream_state_t s = (u8u32_stream_state_t) h;
    u8u32_stream_convert_destroy(&s);
    return s;
}
static int valid(uint32_t c) { return u32_is_valid_codepoint(c) ? 1 : 0; }
static uint32_t mask(uint32_t c) { return u32_unused_bit_mask(c); }
static int capacity(void) { return (int) u32_unused_bit_capacity(); }
static int get(uint32_t c, int i) { return u32_unused_bit_get(c, i) ? 1 : 0; }
static uint32_t on(uint32_t c, int i) { return u32_unused_bit_on(c, i); }
static uint32_t off(uint32_t c, int i) { return u32_unused_bit_off(c, i); }
static uint32_t cleared(uint32_t c) { return u32_unused_bit_cleared(c); }

static struct capi_table const table = {
    u32_gc_count, u8_gc_count, u32_gc_width, u8_gc_width, u32_grapheme_unbreakable, create, run, destroy, u32u8_convert,
    valid, mask, capacity, get, on, off, cleared, GC_WIDTH_MODE_NON_MODIFIABLE, GC_WIDTH_MODE_MODIFIABLE
};
struct capi_table const* capi(void) { return &table; }
