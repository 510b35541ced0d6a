/* Reads, checks and frees one file with the default registry: deep FILE */
#include "iff.h"
#include "error.h"
int main(int argc, char **argv)
{
    IFF_Chunk *c = argc == 2 ? IFF_readFile(argv[1], NULL) : NULL;
    if(c == NULL) return 1;
    IFF_check(c, NULL);
    IFF_free(c, NULL);
    return 0;
}
