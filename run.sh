#!/bin/bash
# developer helper: run a check's exploration, output cut
cd /verif; bash check.sh "$@" 2>&1 | cut -c1-900 | head -60
