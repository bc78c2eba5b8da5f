#include <stdio.h>
void ERR_print_errors_fp(FILE *); unsigned long ERR_get_error(void);
