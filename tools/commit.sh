#!/bin/bash
cd /verif && git add -A && git commit -qm "$1" && git status --short | head -3
