#!/bin/bash
# build.sh DEST [plain|asan]...
# Builds /repo's current working tree (never in place) into DEST/<variant>/,
# the exploration engine into DEST/mcx, and the harness drivers named in
# $HARNESS into DEST/<variant>/h/.
# /repo itself is only read.
set -e
REPO=${REPO:-/repo}
VERIF=$(cd "$(dirname "$0")/.." && pwd)
DEST=$1; shift
unset MAKEFLAGS CFLAGS CPPFLAGS LDFLAGS
export LC_ALL=C.UTF-8
mkdir -p "$DEST"

copy() {
    mkdir -p "$1"
    (cd "$REPO" && tar cf - --exclude=.git --exclude='*.o' --exclude='*.a' \
        --exclude=autom4te.cache --exclude=./tests/gate/testroot \
        --exclude=./doc/man .) | (cd "$1" && tar xf -)
    # objects and programs are always rebuilt
    find "$1/src" -type f -perm -u+x ! -name '*.in' ! -name '*.sh' \
         ! -name '*.c' ! -name '*.h' -delete
}

configured() {
    [ -f "$1/config.h" ] && [ -f "$1/src/Makefile" ] && [ -f "$1/config.status" ] &&
    [ -s "$1/src/include/paths.mak" ] && [ -s "$1/src/common/cf_funcs.mak" ]
}

configure_tree() {
    if ! configured "$1"; then
        (cd "$1" && export CC=gcc PERL=/usr/bin/perl && sh ./autogen.sh &&
         ./configure --without-news --with-sendmail=/usr/sbin/sendmail \
             --disable-extraversion) >"$1.conf.log" 2>&1
    fi
    # make must not try to re-run the autotools
    local f
    for f in aclocal.m4 configure config.h.in Makefile.in src/Makefile.in \
             tests/Makefile.in config.status Makefile src/Makefile \
             tests/Makefile config.h stamp-h1; do
        [ -f "$1/$f" ] && touch "$1/$f"
    done
    touch "$1"/src/include/*.mak "$1"/src/common/cf_*.mak
    rm -f "$1"/src/include/paths.h "$1"/src/include/cf_funcs.h "$1"/src/common/cf_*.c \
          "$1"/src/common/parsedate.c
}

one() {
    local v=$1 t=$DEST/$1 flags
    case $v in
    plain) flags="-g -O1" ;;
    addr)  flags="-g -O1 -fno-omit-frame-pointer -fsanitize=address" ;;
    asan)  flags="-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined" ;;
    esac
    copy "$t"
    configure_tree "$t"
    make -C "$t/src" -j8 AUTOMAKE=: AUTOCONF=: ACLOCAL=: AUTOHEADER=: \
        CFLAGS="$flags -w" >"$t.log" 2>&1 ||
        { tail -40 "$t.log" >&2; echo "build of $v failed" >&2; exit 2; }
    mkdir -p "$t/h"
    local f b
    for b in $HARNESS; do
        f=$VERIF/harness/$b.c
        echo "gcc $flags -w -DHAVE_CONFIG_H -I$t -I$t/src -I$t/src/include -I$VERIF/harness -o $t/h/$b $f $(sed -n 's/^.*@LINK: *\([^*]*\).*$/\1/p' "$f" | sed "s#@#$t/src/#g") $t/src/common/libfidogate.a"
    done | xargs -P8 -d '\n' -I{} sh -c '{}' >"$t.h.log" 2>&1 ||
        { cat "$t.h.log" >&2; echo "harness build ($v) failed" >&2; exit 2; }
}

[ -n "$NOMCX" ] || gcc -O2 -w -o "$DEST/mcx" "$VERIF/engine/mcx.c"
[ $# -gt 0 ] || set -- plain
for v in "$@"; do one "$v"; done
