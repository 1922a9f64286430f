#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [options of run.py]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1
unset PYTHONPATH PYTHONSTARTUP
for py in /opt/venv/bin/python /opt/veriftools/pyvenv/bin/python python3; do
    [ -x "$(command -v "$py")" ] && "$py" -c 'import docopt_subcommands, stevedore, numpy' 2>/dev/null && break
done
exec "$py" run.py "$@"
