#!/bin/sh
# Used as RUSTC_WRAPPER for symx: records which functions of rowcol are executed.
rustc="$1"; shift
case " $* " in
  *" --crate-name rowcol "*|*" --crate-name symx "*) exec "$rustc" "$@" -C instrument-coverage ;;
  *) exec "$rustc" "$@" ;;
esac
