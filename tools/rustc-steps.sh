#!/bin/bash
# Compiler wrapper of the step-counting build: every crate for the target except the
# monitor itself reports each control-flow edge it executes.
name=; target=
for ((i = 1; i <= $#; i++)); do
    case ${!i} in
    --crate-name) j=$((i + 1)); name=${!j} ;;
    --target | --target=*) target=1 ;;
    esac
done
if [ -n "$target" ] && [ "$name" != mbusmon ] && [ "$name" != ___ ]; then
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc
fi
exec "$@"
