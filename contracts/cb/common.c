#include "common.h"
#ifdef REPLAY
#include <string.h>
static unsigned in_val[4096];
char cb_where[200];
unsigned in_n;
unsigned nd(void) { return in_val[in_n++]; }
void contract(void);
int main(int argc, char **argv)
{
	for (int i = 1; i < argc; ++i)
		in_val[i - 1] = strtoul(argv[i], NULL, 10);
	contract();
	printf("contract holds for this input\n");
	return 0;
}
#else
unsigned in_n;
unsigned nd(void) { unsigned cb_input = nondet_unsigned(); in_n++; return cb_input; }
void contract(void);
int main(void) { contract(); return 0; }
#endif
