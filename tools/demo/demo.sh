#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. "$here/kit/build.sh"
