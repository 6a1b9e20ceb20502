#!/bin/bash
# Run with cwd = the repository, after its build. Exit 0: the property holds here.
node=/opt/node/node_modules/.bin/node
[ -x "$node" ] || node=node
exec timeout 120 "$node" "$(cd "$(dirname "$0")" && pwd)/demo.mjs"
