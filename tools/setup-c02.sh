#!/bin/bash
exec "$(dirname "$0")/pre-c02.sh"
