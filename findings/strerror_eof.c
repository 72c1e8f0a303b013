// NECO_EOF has neither a name nor a message
#include <stdio.h>
#include <string.h>
#include "neco.h"
const char *neco_shortstrerror(int code);
int main(void) {
    printf("%s: %s\n", neco_shortstrerror(NECO_EOF), neco_strerror(NECO_EOF));
    return strcmp(neco_shortstrerror(NECO_EOF), "NECO_EOF") != 0;
}
