#!/bin/bash
exec python3 "$(dirname "$0")/u04.py"
