#!/bin/bash
# Compiles the crate `stylist` with the code it has for browsers.
R=$1; shift
case " $* " in
*" --crate-name stylist "*) exec "$R" "$@" --cfg 'target_arch="wasm32"' -A explicit_builtin_cfgs_in_flags ;;
esac
exec "$R" "$@"
