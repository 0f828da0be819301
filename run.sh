#!/bin/sh
# development helper: run a check and keep the output short
exec python3 check.py "$@" -v 2>&1 | grep -v "path witness" | sed -E "s/'(completed|assumed_away|violating|limit)'/\1/g; s/'(checked|proved|concrete|unknown)'/\1/g" | cut -c1-330 | tail -60
