#!/bin/bash
# builds everything once; every check also builds what it needs by itself
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
build_shim; build_cli; build_sim clisim; build_sim streamsim; build_sim histsim
echo setup done
