#!/bin/bash
# run.sh <property> quick|thorough   run one check
# run.sh replay FILE                 replay a violation
# run.sh setup                       build the driver and warm the build cache
cd "$(dirname "$0")" || exit 2
export VTOOL_VERIF="$PWD"
[ -n "$HOME" ] || export HOME=/root
unset GOFLAGS
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false"
mkdir -p .work || exit 2
bin=.work/vtool.$$
(cd tool && go build -o "../$bin" .) || exit 2
trap 'rm -f "$VTOOL_VERIF/$bin"' EXIT
case "$1" in
  setup) "./$bin" build; exit $? ;;
  replay) "./$bin" replay "$(realpath "$2")"; exit $? ;;
  *) "./$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"; exit $? ;;
esac
