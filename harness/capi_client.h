/* Everything of the C interface, reached from C. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct capi_table
{
    int (*gc_count)(uint32_t const*, size_t);
    int (*gc_count8)(char const*, size_t);
    int (*gc_width)(uint32_t const*, size_t, int);
    int (*gc_width8)(char const*, size_t, int);
    int (*unbreakable)(uint32_t, uint32_t);
    void* (*create)(void);
    int (*run)(void*, char, uint32_t*);
    void* (*destroy)(void*);
    int (*convert)(uint32_t const*, size_t, char*, size_t);
    int (*valid)(uint32_t);
    uint32_t (*mask)(uint32_t);
    int (*capacity)(void);
    int (*get)(uint32_t, int);
    uint32_t (*on)(uint32_t, int);
    uint32_t (*off)(uint32_t, int);
    uint32_t (*cleared)(uint32_t);
    int base_only, whole;
};
struct capi_table const* capi(void);
#ifdef __cplusplus
}
#endif
