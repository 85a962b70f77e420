/* h_lock CONFIG KIND NAME WAIT ROUNDS CSFILE: take a lock, check nobody else
   is inside, release it.  KIND: prog | path | bsy (NAME = node).  Prints one
   letter per event: A acquired, B busy, V mutual exclusion violated,
   L/l lock file content is/is not our pid, r released ok, R release failed */
#include "fidogate.h"
#include <fcntl.h>
static void ev(char c) { write(1, &c, 1); }
int main(int argc, char **argv)
{
    char *kind = argv[2], *name = argv[3], *cs = argv[6];
    int wait = atoi(argv[4]), rounds = atoi(argv[5]);
    Node n;
    log_program("h_lock");
    cf_initialize();
    cf_read_config_file(argv[1]);
    if (!strcmp(kind, "bsy") && asc_to_node(name, &n, FALSE) != OK)
        return 9;
    while (rounds--) {
        int r, fd;
        char lf[512];
        if (!strcmp(kind, "prog")) {
            r = lock_program(name, wait);
            snprintf(lf, sizeof lf, "%s/%s", cf_p_lockdir(), name);
        } else if (!strcmp(kind, "path")) {
            r = lock_path(name, wait);
            BUF_EXPAND(lf, name);
        } else {
            r = bink_bsy_create(&n, wait);
            snprintf(lf, sizeof lf, "%s", bink_bsy_name(&n));
        }
        if (r == ERROR) {
            ev('B');
            continue;
        }
        ev('A');
        fd = open(cs, O_CREAT | O_EXCL | O_WRONLY, 0600);
        if (fd < 0)
            ev('V');
        else {
            char b[64];
            FILE *fp;
            close(fd);
            fp = fopen(lf, "r");
            if (!fp || !fgets(b, sizeof b, fp) || atoi(b) != getpid())
                ev('l');
            else
                ev('L');
            if (fp)
                fclose(fp);
            unlink(cs);
        }
        if (!strcmp(kind, "prog"))
            r = unlock_program(name);
        else if (!strcmp(kind, "path")) {
            unlock_path(name);
            r = OK;
        } else
            r = bink_bsy_delete(&n);
        ev(r == OK ? 'r' : 'R');
    }
    return 0;
}
