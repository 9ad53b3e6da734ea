#!/bin/bash
# RUSTC_WRAPPER of the check build: osmosis-std (generated protobuf structs, all uses are modelled) is compiled without
# encoding the MIR of its non-generic functions, which would take most of the build time
case " $* " in
  *" --crate-name osmosis_std "*|*" --crate-name cosmos_sdk_proto "*|*" --crate-name tendermint_proto "*)
    a=()
    for x in "$@"; do [ "$x" = -Zalways-encode-mir ] || a+=("$x"); done
    exec "${a[@]}" -Zthreads=8 ;;
esac
exec "$@"
