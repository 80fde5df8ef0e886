#!/bin/bash
/opt/venv/bin/python /verif/tools/dev/dbg.py "$@" 2>&1 | tail -${N:-14} | cut -c1-${W:-400}
