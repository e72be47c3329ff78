#!/bin/bash
# build the harness once (every check builds it again where needed)
exec "$(dirname "$0")/build.sh"
