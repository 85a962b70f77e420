/* stand-ins for the programs runinc starts; what to be is the name called by
 *
 * unarc ARCHIVE   unpacks "IDENT\nEXITCODE\nNAME=TEXT\n..." into the current directory
 * list ARCHIVE    prints the lines of ARCHIVE.list
 * df              prints ../df
 * others          notes the call in ../calls, exits with its next code of ../codes/NAME;
 * ftntoss         takes the packets (code 2: none, code 3: one) of its inbound to ../tossed
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>

static void die(const char *s)
{
    perror(s);
    exit(99);
}

int main(int argc, char **argv)
{
    char base[4096], p[8192], line[65536], *n;
    FILE *fp, *out;
    int calls = 0, code = 0, i;

    n = strrchr(argv[0], '/');
    if (!n)
        die("name");
    snprintf(base, sizeof(base), "%.*s", (int)(n - argv[0]), argv[0]);
    *strrchr(base, '/') = 0;
    n++;

    if (!strcmp(n, "unarc")) {
        fp = fopen(argv[1], "r");
        if (!fp || !fgets(line, sizeof(line), fp) || !fgets(line, sizeof(line), fp))
            die(argv[1]);
        code = atoi(line);
        while (fgets(line, sizeof(line), fp)) {
            char *e = strchr(line, '=');
            line[strcspn(line, "\n")] = 0;
            *e++ = 0;
            unlink(line);
            if (!(out = fopen(line, "w")) || fputs(e, out) == EOF)
                die(line);
            if (fclose(out))
                die(line);
        }
        return code;
    }
    if (!strcmp(n, "list") || !strcmp(n, "df")) {
        if (*n == 'l')
            snprintf(p, sizeof(p), "%s.list", argv[1]);
        else
            snprintf(p, sizeof(p), "%s/df", base);
        if ((fp = fopen(p, "r")))
            while (fgets(line, sizeof(line), fp))
                fputs(line, stdout);
        return 0;
    }

    snprintf(p, sizeof(p), "%s/calls", base);
    if ((fp = fopen(p, "r"))) {
        while (fgets(line, sizeof(line), fp))
            if (!strncmp(line, n, strlen(n)) && (line[strlen(n)] == ' ' || line[strlen(n)] == '\n'))
                calls++;
        fclose(fp);
    }
    i = snprintf(line, sizeof(line), "%s", n);
    for (code = 1; code < argc; code++)
        i += snprintf(line + i, sizeof(line) - i, " %s", argv[code]);
    strcpy(line + i, "\n");
    if ((i = open(p, O_WRONLY | O_CREAT | O_APPEND, 0666)) == -1 || write(i, line, strlen(line)) < 0)
        die(p);
    close(i);
    code = 0;
    snprintf(p, sizeof(p), "%s/codes/%s", base, n);
    if ((fp = fopen(p, "r"))) {
        for (i = 0; i <= calls; i++)
            if (fscanf(fp, "%d", &code) != 1)
                code = 0;
        fclose(fp);
    }
    if (!strcmp(n, "ftntoss") && code != 2) {
        const char *dir = NULL;
        DIR *d;
        struct dirent *e;
        int k = 0;

        for (i = 1; i + 1 < argc; i++)
            if (!strcmp(argv[i], "-I"))
                dir = argv[i + 1];
        if (!dir || !(d = opendir(dir)))
            die("inbound");
        while ((e = readdir(d))) {
            size_t l = strlen(e->d_name);
            char from[8192], to[8192];

            if (l < 4 || strcasecmp(e->d_name + l - 4, ".pkt"))
                continue;
            snprintf(from, sizeof(from), "%s/%s", dir, e->d_name);
            do
                snprintf(to, sizeof(to), "%s/tossed/%04d", base, k++);
            while (access(to, F_OK) == 0);
            if (rename(from, to))
                die(from);
            if (code == 3)
                break;
        }
        closedir(d);
    }
    return code;
}
