#!/bin/bash
# development: try.sh <patch file|-R commit|none> <seconds> <property>...
# Builds the simulator against a scratch clone of /repo with the change and runs checks.
# (Evidence and replays are overwritten; run the real checks afterwards.)
WT=/tmp/wt; SIM=/tmp/wtsim
[ -d $WT ] || git clone -q /repo $WT
git -C $WT fetch -q origin && git -C $WT reset -q --hard origin/HEAD 2>/dev/null || git -C $WT reset -q --hard FETCH_HEAD
git -C $WT clean -fdq -e target
if [ "$1" = -R ]; then
  shift
  git -C $WT revert -n $1 >/dev/null 2>&1 || { echo "cannot revert $1"; git -C $WT revert --abort; exit 9; }
  git -C $WT reset -q
elif [ "$1" != none ]; then
  git -C $WT apply "$1" || { echo "does not apply"; exit 9; }
fi
shift
secs=$1; shift
mkdir -p $SIM
rsync -a --delete --exclude target /verif/sim/ $SIM/ 2>/dev/null || { rm -rf /tmp/wtsim/src; cp -rp /verif/sim/. $SIM/; }
sed -i "s|path = \"/repo\"|path = \"$WT\"|" $SIM/Cargo.toml
(cd $SIM && CARGO_TARGET_DIR=/tmp/wttarget cargo build --offline -q >/tmp/wtbuild.log 2>&1) || { echo "does not build"; tail -20 /tmp/wtbuild.log; exit 8; }
for p in "$@"; do
  echo "== $p: $(/tmp/wttarget/debug/tsim check $p --secs $secs ${TRYARGS} 2>&1 | grep -v '^note' | grep -v ^KNOWN | cut -c1-260 | tail -3)"
done
