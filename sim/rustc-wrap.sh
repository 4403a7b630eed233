#!/bin/bash
# RUSTC_WRAPPER: function entries of the code under test become points where the
# simulated scheduler may switch threads (see baton.rs).
rustc=$1; shift
case " $* " in
    *" --crate-name aeonflux "*|*" --crate-name signal_credential "*|*" --crate-name credential_c "*|*" --crate-name credential_js "*|*" --crate-name credential_rust "*|*" --crate-name merlin "*)
        exec "$rustc" -Z instrument-mcount "$@" ${VERIF_CUT:-} ;;
esac
exec "$rustc" "$@"
