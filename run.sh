#!/bin/bash
# run.sh PROPERTY [quick|thorough]  - build the framework if needed and run one check
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .bin evidence
go build -o .bin/check ./cmd/check || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
exec .bin/check -prop "$1" -tier "$tier"
