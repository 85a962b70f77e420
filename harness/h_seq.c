/* h_seq CONFIG SEQFILE N: draw N numbers, print each to stdout (unbuffered) */
#include "fidogate.h"
int main(int argc, char **argv)
{
    int i, n = atoi(argv[3]);
    log_program("h_seq");
    cf_initialize();
    cf_read_config_file(argv[1]);
    setvbuf(stdout, NULL, _IONBF, 0);
    for (i = 0; i < n; i++)
        printf("%ld\n", sequencer_nx(argv[2], FALSE));
    return 0;
}
