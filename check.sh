#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -x bin/vcg ] || ./setup.sh || exit 2
exec ./bin/vcg check -prop "$1" -tier "${2:-quick}" -repo /repo -verif "$PWD"
