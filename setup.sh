#!/bin/bash
cd "$(dirname "$(realpath "$0")")" && exec ./check.sh build
