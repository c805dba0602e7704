#!/bin/bash
# mkseed.sh ID PROPERTY: the changes in the worktree /tmp/sd/wt become /verif/seeded/ID/patch.diff
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/sd/wt diff > $d/patch.diff
git -C /tmp/sd/wt checkout -q -- .
[ -s $d/patch.diff ] || echo "EMPTY $1"
printf '{"property": "%s", "needs": "%s", "what_it_breaks": "%s"}\n' "$2" "$3" "$4" > $d/meta.json
[ -e $d/demo.sh ] || cat > $d/demo.sh <<'D'
#!/bin/bash
# exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_osc=^ucx TMPDIR=$w
mpicxx -O1 -std=gnu++14 -w -include cassert -include cmath -include cstddef -include cstring -include limits -Iinclude "$here/demo.cc" _build/libexseisdat.a -o "$w/demo" || exit 2
cd "$w" && timeout 120 NP ./demo
D
sed -i "s/timeout 120 NP/timeout 120 ${NP:-}/" $d/demo.sh; chmod +x $d/demo.sh
