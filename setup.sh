#!/bin/bash
# Warms every build product under /verif/target.
exec bash "$(dirname "$0")/build.sh"
