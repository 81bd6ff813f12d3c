#!/bin/bash
# mkseed.sh ID: record the current uncommitted change of /tmp/sw (a scratch worktree of /repo) as seeded/ID/patch.diff and revert it
mkdir -p /verif/seeded/$1; git -C /tmp/sw diff > /verif/seeded/$1/patch.diff; git -C /tmp/sw checkout -q -- .; wc -l /verif/seeded/$1/patch.diff
