/* h_flo CONFIG OP...   operations on the FLO file of 2:1/5:
   a:MODE:NAME:FLAV:BSY  bink_attach      -> prints "a NAME ok|err"
   m:DEL:BSY             mailer: read all entries, mark them sent, close
                         (delete if DEL)  -> prints "s ENTRY" per entry
   x:DEL:BSY             like m but without marking */
#include "fidogate.h"
int main(int argc, char **argv)
{
    int i;
    Node n;
    setvbuf(stdout, NULL, _IONBF, 0);
    log_program("h_flo");
    cf_initialize();
    cf_read_config_file(argv[1]);
    asc_to_node(argv[2], &n, FALSE);
    for (i = 3; i < argc; i++) {
        char *op = strtok(strdup(argv[i]), ":");
        if (*op == 'a') {
            char *m = strtok(NULL, ":"), *name = strtok(NULL, ":"), *fl = strtok(NULL, ":"), *b = strtok(NULL, ":");
            int r = bink_attach(&n, *m == '-' ? 0 : *m, name, fl, atoi(b));
            printf("a %s %s\n", name, r == OK ? "ok" : "err");
        } else {
            int del = atoi(strtok(NULL, ":")), bsy = atoi(strtok(NULL, ":"));
            char *l;
            if (flo_open(&n, bsy) != OK) {
                printf("none\n");
                continue;
            }
            while ((l = flo_gets(buffer, BUFFERSIZE))) {
                if (*l == '~')
                    continue;
                printf("s %s\n", l);
                if (*op == 'm')
                    flo_mark();
            }
            flo_close(&n, bsy, del);
            printf("done\n");
        }
    }
    return 0;
}
