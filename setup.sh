#!/bin/bash
# builds the IR dumper (offline); checks rebuild it themselves when it is missing
cd "$(dirname "$0")" && python3-vt -c "import sys; sys.path.insert(0,'engine'); import frame; print(frame.tool())"
