#!/bin/bash
# try.sh <patch or git-revert:HASH,...> <property>...   (development aid)
# Runs checks of this working tree against a scratch copy of /repo with a patch.
set -u
what="$1"; shift
here="$(cd "$(dirname "$0")/.." && pwd)"
s="$(mktemp -d /tmp/try.XXXXXX)"
trap 'rm -rf "$s"' EXIT
git -C /repo worktree prune
cp -a /repo "$s/repo"; rm -rf "$s/repo/target"
case "$what" in
    git-revert:*) for h in $(echo "${what#git-revert:}" | tr , ' '); do git -C "$s/repo" -c user.name=x -c user.email=x revert --no-edit "$h" >/dev/null 2>&1 || { echo "revert $h failed"; exit 9; }; done ;;
    -) ;;
    *) git -C "$s/repo" apply "$what" || exit 9 ;;
esac
mkdir "$s/verif"
cp -a "$here/check.sh" "$here/literals.txt" "$s/verif/"
mkdir "$s/verif/harness"
cp -a "$here/harness/src" "$here/harness/Cargo.toml" "$here/harness/Cargo.lock" "$s/verif/harness/"
[ -d "$here/regress" ] && cp -a "$here/regress" "$s/verif/"
mkdir "$s/verif/trace"
cp -a "$here/trace/src" "$here/trace/Cargo.toml" "$here/trace/Cargo.lock" "$s/verif/trace/"
sed -i "s#path = \"/repo\"#path = \"$s/repo\"#" "$s/verif/harness/Cargo.toml" "$s/verif/trace/Cargo.toml"
for p in "$@"; do
    o="$("$s/verif/check.sh" "$p" quick 2>&1)"; c=$?
    echo "$p exit $c: $(echo "$o" | grep -E '^unit|VIOLATION|HARNESS|watchdog|failed' | head -2 | cut -c1-260 | tr '\n' '|')"
done
