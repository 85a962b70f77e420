/* h_hist CONFIG: operations on history databases, one per line of stdin, arguments separated by 0x01
 * o NAME | c | x | w KEY TIME | a KEY TEXT | d RFC FTN | t KEY | f KEY | F KEY (flag 0) | s NAME SIZE (dbzfresh) | e NAME SIZE | u NAME
 * prints one line for each */
#include "fidogate.h"
#include "dbz.h"
short int hi_init(char *);

static char *arg(char **p)
{
    char *s = *p, *e = strchr(s, 1);

    if (e) {
        *e = 0;
        *p = e + 1;
    } else
        *p = s + strlen(s);
    return s;
}

int main(int argc, char **argv)
{
    static char line[100000];
    char *p, *a, *b, *r;
    FILE *fp;
    char name[4096];

    log_program("h_hist");
    cf_initialize();
    cf_read_config_file(argv[1]);
    while (fgets(line, sizeof(line), stdin)) {
        line[strcspn(line, "\n")] = 0;
        p = line + 1;
        a = arg(&p);
        b = arg(&p);
        switch (*line) {
        case 'o':
            printf("%d\n", hi_init(a));
            break;
        case 'c':
            hi_close();
            puts("");
            break;
        case 'x':
            hi_cancel();
            puts("");
            break;
        case 'w':
            printf("%d\n", hi_write_t(atol(b), 0, a));
            break;
        case 'a':
            printf("%d\n", hi_write_avail(a, b));
            break;
        case 'd':
            printf("%d\n", hi_write_dbc(a, b, FALSE));
            break;
        case 't':
            printf("%d\n", hi_test(a) != 0);
            break;
        case 'f':
            r = hi_fetch(a, 1);
            printf("%s\n", r ? r : "-");
            break;
        case 'F':
            r = hi_fetch(a, 0);
            printf("%s\n", r ? r : "-");
            break;
        case 'e':              /* extend by a line, sparse */
            if ((fp = fopen(a, "r+"))) {
                fseek(fp, atol(b) - 1, SEEK_SET);
                fputc('\n', fp);
                fclose(fp);
            }
            puts("0");
            break;
        case 'u':
            printf("%d\n", unlink(a));
            break;
        case 's':
            snprintf(name, sizeof(name), "%s.dir", a);
            if ((fp = fopen(name, "w")))
                fclose(fp);
            snprintf(name, sizeof(name), "%s.pag", a);
            if ((fp = fopen(name, "w")))
                fclose(fp);
            if ((fp = fopen(a, "w")))
                fclose(fp);
            printf("%d\n", dbzfresh(a, atol(b), '\t', '?', 0));
            dbmclose();
            break;
        }
        fflush(stdout);
    }
    return 0;
}
