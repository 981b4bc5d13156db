#!/bin/bash
here=$(dirname "$(realpath "$0")")
. /opt/vp/env.sh
exec "$here/build.sh"
