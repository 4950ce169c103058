#!/bin/bash
# The C compiler of the checks that convert many models in Python: compiles for real once per distinct
# content of sources and headers and copies the result afterwards (MC_CC_CACHE); a scheduling point of a controlled
# interleaving when MC_SCHED is set.
real=/usr/bin/gcc
if [ -n "$MC_SCHED" ]; then echo P > "$MC_SCHED.req"; read -r _ < "$MC_SCHED.go"; fi
[ -z "$MC_CC_CACHE" ] && exec $real "$@"
out=; compile=; keyargs=; src=(); inc=()
while [ $# -gt 0 ]; do
    case "$1" in
        -o) out="$2"; o+=("$1" "$2"); shift;;
        -c) compile=1; o+=("$1");;
        -I*) inc+=("${1#-I}"); o+=("$1");;
        -*) keyargs+=" $1"; o+=("$1");;
        *) src+=("$1"); o+=("$1");;
    esac
    shift
done
set -- "${o[@]}"
[ -z "$out" ] && exec $real "$@"
# everything that the result depends on: sources or objects, and all headers of the include directories
h=(); for d in "${inc[@]}"; do h+=("$d"/*.h); done
key=$( { echo "$compile $keyargs"; cat "${src[@]}" "${h[@]}"; } 2>/dev/null | md5sum)
f="$MC_CC_CACHE/${key%% *}"
if [ ! -f "$f" ]; then
    $real "$@" || exit $?
    cp "$out" "$f.$$" && mv "$f.$$" "$f"
    exit 0
fi
rm -f "$out"; cp "$f" "$out"
