#!/bin/bash
exec "$(dirname "$0")/pre-c29.sh"
