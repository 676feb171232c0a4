// Small instrumented accessors: plain memory accesses the race detector sees.
#ifndef W_MISC_H
#define W_MISC_H
#ifdef __cplusplus
extern "C" {
#endif
void w_store(int *p, int v);
int w_load(int *p);
// read-modify-write in two separate accesses
void w_bump(int *p);
#ifdef __cplusplus
}
#endif
#endif
