#!/bin/bash
# Warms the build cache, and lists the checks. Checks build themselves.
here=$(cd "$(dirname "$0")" && pwd)
exec "$here/check.sh" none list
