#!/bin/bash
# lists the fix: commits of /repo (helper for known_findings.txt)
git -C /repo log --reverse --format='%h %s' | grep ' fix:'
