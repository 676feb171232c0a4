#include "w_misc.h"
void w_store(int *p, int v)
{
	*p = v;
}
int w_load(int *p)
{
	return *p;
}
void w_bump(int *p)
{
	int v = *p;
	*p = v + 1;
}
