#!/bin/bash
exec "$(dirname "$0")/pre-c30.sh"
