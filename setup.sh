#!/bin/bash
# builds the framework from the committed files (every check also builds whatever is missing)
cd "$(dirname "$0")"
exec python3-vt -c "
import sys; sys.path.insert(0,'tool'); import build as B
B.ensure_common(); B.ensure_proof_tools(); B.ensure_pch('native', B.NFL); B.pb_lib(); print('setup ok')"
