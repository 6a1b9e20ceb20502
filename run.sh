#!/bin/sh
# run.sh <script.mjs> args...: node that can run the simulator, from any directory.
here=$(cd "$(dirname "$0")" && pwd)
node=/opt/node/node_modules/.bin/node
[ -x "$node" ] || node=node
script=$1
shift
exec "$node" "$here/$script" "$@"
