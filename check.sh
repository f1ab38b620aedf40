#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
export VERIF_DIR="$PWD"
bin=target/release/mcheck
case $1 in
C13)
    # the time-outs are also checked in a build without the library's `time` feature
    ./build.sh notime || exit 2
    MCHECK_EVIDENCE="$PWD/target/notime/C13.json" target/notime/release/mcheck run "$1" ${2:+"$2"}
    code=$?
    [ $code = 0 ] || exit $code
    export MCHECK_EXTRA="$PWD/target/notime/C13.json"
    ;;
C30)
    # one build for every subset of the library's optional features
    ./features.sh || exit
    ;;
C24 | C25 | C26)
    # generated models are a crate of their own
    n=80
    [ "${2:-$VERIF_TIER}" = thorough ] && n=400
    ./models.sh "$1" $n || exit
    bin=target/release/mmodels$n
    ;;
esac
exec $bin run "$1" ${2:+"$2"}
