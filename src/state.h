/* the library's own writable data (sections renamed by the Makefile), page aligned and padded */
#ifndef STATE_H
#define STATE_H
#include <stddef.h>
#include <stdint.h>
extern uint8_t __start_hxdata[], __stop_hxdata[], __start_hxbss[], __stop_hxbss[];
extern uint8_t hx_data_first[], hx_data_last[], hx_bss_first[], hx_bss_last[];
#endif
