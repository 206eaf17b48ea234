#!/bin/bash
# vcheck in the background: log in /tmp/vcheck.log
cd /verif && git status --short | head -3
nohup vcheck "$@" > /tmp/vcheck.log 2>&1 &
