#!/bin/bash
# Instruments the packages whose schedules this check explores.
set -e
work=$1
cd "$(dirname "$0")/.."
P=github.com/hrygo/gosms
go build -o "$work/instr.bin" ./cmd/instr
"$work/instr.bin" "$work" $P/utils $P/utils/snowflake $P/utils/snowflake32 $P/codec $P/codec/cmpp $P/codec/sgip $P/codec/smgp $P/event_manager $P/auth $P/msc_server $P/smc_client
