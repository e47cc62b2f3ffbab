// console streams as objects the harness owns (included into repository sources by harnesses that observe output)
#include <stdio.h>
extern FILE * const sxc_out, * const sxc_err;
#undef stdout
#undef stderr
#define stdout sxc_out
#define stderr sxc_err
