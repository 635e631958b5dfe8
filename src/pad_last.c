#include <stdint.h>
__attribute__((section("hxdata"), aligned(4096))) uint8_t hx_data_last[4096] = { 1 };
__attribute__((section("hxbss,\"aw\",@nobits#"), aligned(4096))) uint8_t hx_bss_last[4096];
