#!/bin/bash
# usage: check.sh <property id> quick|thorough          run the check
#        check.sh <property id> replay <replay file>    re-execute one recorded violation
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id="${1:?property id}"
what="${2:-quick}"
case "$what" in
    quick|thorough) export VERIF_TIER="$what"; args=() ;;
    replay) args=(--replay "$(realpath "${3:?replay file}")") ;;
    *) echo "usage: check.sh ID quick|thorough|replay FILE" >&2; exit 3 ;;
esac
case "$id" in
    C0*) build_shim; build_cli; build_sim clisim; exec "$T/sim/debug/clisim" "$id" "${args[@]}" ;;
    S0*) build_sim streamsim; exec "$T/sim/debug/streamsim" "$id" "${args[@]}" ;;
    G0*) build_sim histsim; exec "$T/sim/debug/histsim" "$id" "${args[@]}" ;;
    E0*|W0*)
        [ "${id:0:1}" = W ] && export E2E_KIND=wsdl
        n=192; [ "$VERIF_TIER" = thorough ] && n=400; n="${E2E_N:-$n}"
        only=()
        if [ "$what" = replay ]; then
            read -r VERIF_SEED i < <(python3 -c 'import json,sys; c=json.load(open(sys.argv[1]))["case"]; print(c["seed"], c["schema"])' "${args[1]}")
            export VERIF_SEED; only=("$i"); n=1
        fi
        build_e2e "$n" "${only[@]}"; exec "$T/sim/debug/e2erun" "$id" "${args[@]}" ;;
    *) echo "unknown property $id" >&2; exit 3 ;;
esac
