#ifndef DRV_H
#define DRV_H
#include <stdint.h>
#include <stddef.h>
#define DRV_TIMEOUT 3
#define DRV_NOW 1700000000   /* 2023-11-14 22:13:20 UTC */
union val { unsigned char b[16]; uint64_t u; void *p; long double r; };
void drv_call(uint32_t fn, union val *a, union val *r);
void drv_finish(int outcome);
int64_t drv_next(int64_t dflt);
void drv_log(const char *fmt, ...);
void drv_text(const char *p);
void *drv_base(int i);
int drv_tracking(int on);
int drv_handles(void);
extern int drv_fs, drv_nscript;
extern int64_t drv_script[64];
extern int drv_unbuf;
#endif
