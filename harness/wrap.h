#ifndef WV_WRAP_H
#define WV_WRAP_H
#include <stdint.h>
#include <stddef.h>
/* Path redirection and schedule perturbation shared by all harnesses. */
const char *wv_redirect(const char *path, char *buf, size_t size);
void wv_perturb_set(uint32_t seed, uint32_t per_mille);
void wv_perturb(void);
void wv_fault(const char *spec); /* "bytes part": files cannot grow over that many bytes (0 = no limit), paths that contain part cannot be opened */
void wv_clock_set(long speed); /* seconds that pass in one */
extern int wv_thread_cap; /* worker threads really created (0 = no cap) */
#endif
