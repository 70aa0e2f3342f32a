#!/bin/bash
# Rebuilds PyVRP's extension modules in place from /repo's current working tree,
# the way /opt/vp/build.sh does (same flags, same build directory), but without
# writing anything in /opt/vp.  Usage: bash build.sh   (exit 0 on success)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export PKG_CONFIG_PATH=/opt/vp/pkgconfig
export CCACHE_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
unset PYTHONPATH CFLAGS CXXFLAGS LDFLAGS CC CXX LD_PRELOAD
cd /repo || exit 3
exec 9> /tmp/.verif-build.lock
flock 9
new=$(mktemp /tmp/verif-sources.XXXXXX)
trap 'rm -f "$new"' EXIT
[ -f build/build.ninja ] || rm -rf /repo/build
state=/repo/build/.vp-sources
find pyvrp/cpp buildtools meson.build pyproject.toml -type f \
    -not -path '*/__pycache__/*' -print0 | sort -z | xargs -0 sha256sum > "$new"
if [ -d build ] && ! cmp -s "$new" "$state"; then
    if [ -f "$state" ]; then
        comm -13 <(sort "$state") <(sort "$new") | cut -c67- | xargs -r -d '\n' touch
    fi
    if ! cmp -s <(cut -c67- "$new") <(cut -c67- "$state" 2>/dev/null); then
        meson setup --reconfigure build || exit 3
    fi
    cp "$new" "$state"
fi
python buildtools/build_extensions.py --build_type debug \
    --additional --wrap-mode=nodownload -Db_coverage=false
rc=$?
[ $rc -eq 0 ] && [ ! -f "$state" ] && cp "$new" "$state"
exit $rc
