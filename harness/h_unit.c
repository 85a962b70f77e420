/* h_unit CONFIG   library functions on records read from stdin
   record: op, number of arguments, (u32 length, bytes)...
   answer: number of results, (u32 length, bytes)...              @LINK: */
#include "fidogate.h"

static unsigned char *arg[16];
static size_t alen[16];
static int nres;
static unsigned char rbuf[1 << 22];
static size_t rlen;

static void res(const char *s, size_t n)
{
    unsigned int u = n;
    memcpy(rbuf + rlen, &u, 4);
    memcpy(rbuf + rlen + 4, s, n);
    rlen += n + 4;
    nres++;
}
static void ress(const char *s) { if (s) res(s, strlen(s)); }

static void lines(Textlist *tl, char *s)
{
    tl_init(tl);
    while (*s) {
        char *e = strchr(s, '\n'), c;
        e = e ? e + 1 : s + strlen(s);
        c = *e;
        *e = 0;
        tl_append(tl, s);
        *e = c;
        s = e;
    }
}
static void out(Textlist *tl)
{
    Textline *l;
    for (l = tl->first; l; l = l->next)
        ress(l->line);
}

int main(int argc, char **argv)
{
    int op, n, i;
    log_program("h_unit");
    cf_initialize();
    cf_read_config_file(argv[1]);
    cf_i_am_a_gateway_prog();
    hosts_init();
    charset_init();
    while ((op = getchar()) != EOF) {
        n = getchar();
        for (i = 0; i < n; i++) {
            unsigned int u;
            if (fread(&u, 4, 1, stdin) != 1)
                return 3;
            arg[i] = malloc(u + 1);
            if (u && fread(arg[i], u, 1, stdin) != 1)
                return 3;
            arg[i][u] = 0;
            alen[i] = u;
        }
        nres = 0;
        rlen = 0;
        char *d = NULL;
        Textlist a, b;
        switch (op) {
        case 'E':              /* encode header: text, charset, b|q */
            if (mime_header_enc(&d, arg[0], arg[1], *arg[2] == 'q' ? MIME_QP : MIME_B64) == OK) {
                ress(d);
                free(d);
            }
            break;
        case 'D': {            /* decode header: value, to, fallback, header lines */
            static char buf[65536];
            RFCHeader *h;
            int sz = atoi(arg[4]);
            char *o = malloc(sz);
            lines(&a, arg[3]);
            h = header_read_list(&a);
            ress(mime_header_dec(o, sz, arg[0], arg[1], arg[2], h));
            free(o);
            header_free(h);
            tl_clear(&a);
            break;
        }
        case 'b':
        case 'q':              /* encode body */
            lines(&a, arg[0]);
            (op == 'b' ? mime_b64_encode_tl : mime_qp_encode_tl)(&a, &b);
            out(&b);
            tl_clear(&a);
            tl_clear(&b);
            break;
        case 'B': {            /* decode body: header lines, body, to, fallback */
            RFCHeader *h;
            Textlist *r;
            lines(&a, arg[0]);
            lines(&b, arg[1]);
            h = header_read_list(&a);
            r = mime_body_dec(&b, h, arg[2], arg[3]);
            if (r) {
                res("", 0);
                out(r);
                tl_clear(r);
                free(r);
            }
            header_free(h);
            tl_clear(&a);
            tl_clear(&b);
            tmps_freeall();
            break;
        }
        case 'r': {            /* recode: text, from, to */
            size_t l;
            if (charset_recode_buf(&d, &l, arg[0], alen[0], arg[1], arg[2]) == OK) {
                res(d, l);
                free(d);
            }
            break;
        }
        case 'u':              /* valid utf-8? */
            res(charset_is_valid_utf8(arg[0], alen[0]) ? "1" : "0", 1);
            break;
        case 'm': {            /* MSGID -> Message-ID */
            int z = -99;
            char zb[32];
            char *r = s_msgid_fido_to_rfc(arg[0], &z, FALSE, NULL, TRUE, FALSE, FALSE);
            ress(r);
            sprintf(zb, "%d", z);
            ress(zb);
            tmps_freeall();
            break;
        }
        case 'M': {            /* Message-ID -> MSGID: id, part, area, flags */
            int o = -1;
            char *f = arg[3];
            char ob[32];
            char *r = s_msgid_rfc_to_fido(&o, arg[0], atoi(arg[1]), *arg[2] ? (char *)arg[2] : NULL, 0, !!strchr(f, 'r'), !!strchr(f, 's'),
                                          !!strchr(f, 'm'), TRUE, !!strchr(f, 'n'));
            ress(r);
            sprintf(ob, "%d", o);
            ress(ob);
            tmps_freeall();
            break;
        }
        case 'o':
            ress(s_msgid_convert_origid(arg[0]));
            tmps_freeall();
            break;
        case 'w':              /* wildmatch: text, pattern, ignore case */
            res(wildmatch(arg[0], arg[1], *arg[2] == 'i') ? "1" : "0", 1);
            break;
        case 'n': {            /* address: text, wildcard ok */
            Node nd;
            memset(&nd, 0, sizeof(nd));
            if (asc_to_node(arg[0], &nd, *arg[1] == 'w') == OK) {
                char t[100];
                sprintf(t, "%d %d %d %d", nd.zone, nd.net, nd.node, nd.point);
                ress(t);
                ress(znfp1(&nd));
            }
            break;
        }
        case 'i': {            /* internet name -> address */
            Node *p = inet_to_ftn(arg[0]);
            if (p)
                ress(znfp1(p));
            break;
        }
        case 'f': {            /* address -> internet name */
            Node nd;
            if (asc_to_node(arg[0], &nd, FALSE) == OK) {
                ress(s_ftn_to_inet(&nd));
                tmps_freeall();
            }
            break;
        }
        case 'a': {            /* RFC address: text -> user addr real */
            RFCAddr r = rfcaddr_from_rfc(arg[0]);
            ress(r.user);
            ress(r.addr);
            ress(r.real);
            break;
        }
        case 't': {            /* FTN date text -> time_t */
            char t[40];
            sprintf(t, "%ld", (long)parsedate(arg[0], NULL));
            ress(t);
            break;
        }
        default:
            return 4;
        }
        putchar(nres & 0xff); putchar(nres >> 8);
        fwrite(rbuf, 1, rlen, stdout);
        for (i = 0; i < n; i++)
            free(arg[i]);
    }
    return 0;
}
