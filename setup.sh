#!/bin/bash
# The specification must parse; the checks build the tool themselves.
cd "$(dirname "$0")/spec" || exit 1
for m in *.tla; do
  tla-sany "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo "specification parsed"
