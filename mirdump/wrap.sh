#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc; the analysed crate is compiled by mirdump.
shift
case " $* " in
  *" --crate-name iec61131std "*) exec "$MIRDUMP_BIN" "$MIRDUMP_OUT" "$@" ;;
  *) exec rustc "$@" ;;
esac
