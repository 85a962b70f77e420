/* Stand-in archiver: h_arc ARCHIVE PACKET appends a record to the archive.
 * h_arc -x ARCHIVE extracts all records into the current directory,
 * h_arc -l ARCHIVE only checks them. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

static char buf[1 << 20];

int main(int argc, char **argv)
{
    int fd, in, n, k;
    char *p;

    if (argc == 3 && argv[1][0] == '-') {
        FILE *fp = fopen(argv[2], "rb"), *o;
        char name[256];
        unsigned len;

        if (!fp)
            return 2;
        while ((n = fscanf(fp, "FILE %255s %u", name, &len)) == 2) {
            if (fgetc(fp) != '\n' || len > sizeof(buf) || fread(buf, 1, len, fp) != len || fgetc(fp) != '\n')
                return 3;
            if (argv[1][1] == 'x') {
                if (!(o = fopen(name, "wb")) || fwrite(buf, 1, len, o) != len || fclose(o))
                    return 4;
            }
        }
        return n == EOF ? 0 : 3;
    }
    if (argc != 3)
        return 9;
    p = strrchr(argv[2], '/');
    p = p ? p + 1 : argv[2];
    n = sprintf(buf, "FILE %s ", p);
    if ((in = open(argv[2], O_RDONLY)) < 0)
        return 2;
    struct stat st;
    fstat(in, &st);
    n += sprintf(buf + n, "%ld\n", (long)st.st_size);
    if ((k = read(in, buf + n, sizeof(buf) - n - 1)) != st.st_size)
        return 3;
    n += k;
    buf[n++] = '\n';
    /* like real archivers: a new file replaces the old one */
    char tmp[4096];
    char *old = NULL;
    long ol = 0;
    if ((fd = open(argv[1], O_RDONLY)) >= 0) {
        fstat(fd, &st);
        old = malloc(st.st_size + 1);
        ol = read(fd, old, st.st_size);
        if (ol != st.st_size)
            return 5;
        close(fd);
    } else if (errno != ENOENT)
        return 5;
    snprintf(tmp, sizeof(tmp), "%s.arctmp", argv[1]);
    if ((fd = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0666)) < 0)
        return 6;
    if ((ol && write(fd, old, ol) != ol) || write(fd, buf, n) != n || close(fd) < 0) {
        unlink(tmp);
        return 7;
    }
    if (rename(tmp, argv[1]) < 0) {
        unlink(tmp);
        return 8;
    }
    return 0;
}
