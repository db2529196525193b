#!/bin/bash
# check.sh PROPERTY [thorough]   decide one property for /repo's working tree
# check.sh replay SECTION SEED INDEX   rerun one concrete case
# check.sh build                 build the verifier and the search harness
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py "$@"
