#!/bin/bash
# Builds the extension from the working tree in the current directory, runs demo.sql on a private
# cluster and compares what every statement returns with expected.txt.
exec python3 "$(dirname "$0")/demo.py"
