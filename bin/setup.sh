#!/bin/bash
# Builds all harness crates against /repo's working tree (offline). Output: /verif/.build/target
# One at a time, as the checks do: built together, their dependencies would get other features.
set -e
for crate in $(awk '{print $2}' /verif/bin/crates.txt | sort -ru); do
    bash /verif/bin/build.sh "$crate"
done
