#!/bin/bash
# builds the extractor; everything else is interpreted
cd "$(dirname "$0")" && python3 -c "from sa.project import ensure_extractor; ensure_extractor()"
