#!/bin/bash
# Builds the fact extractor and extracts facts once; checks redo both on demand when the results are not there.
cd "$(dirname "$0")" && python3 lib/extract.py # all groups
