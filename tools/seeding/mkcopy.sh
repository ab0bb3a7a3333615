#!/bin/bash
# mkcopy.sh DIR: a copy of /verif and /repo under DIR that runs on its own copy of the repository
set -e
D="$1"; mkdir -p "$D"
cp -a /repo "$D/repo"
cp -a /verif "$D/verif"
sed -i "s#path = \"/repo\"#path = \"$D/repo\"#" "$D/verif/harness/Cargo.toml"
sed -i "s#^REPO=/repo#REPO=$D/repo#" "$D/verif/run.sh"
rm -f "$D"/verif/target/.built-*
