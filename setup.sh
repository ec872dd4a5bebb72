#!/bin/sh
# Nothing is compiled: parse every specification and import the code under test once.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/spec" || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
PYTHONPATH="${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import aviary.api" || exit 1
echo setup ok
