#!/bin/bash
# builds the framework from the committed files (offline)
set -e
cd "$(dirname "$0")"
python3 -c "
import sys; sys.path.insert(0,'.')
from vlib import vc
print(vc.build_extractor())"
