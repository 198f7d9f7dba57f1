#!/bin/bash
# prints the fix: commits of /repo, for known_findings.txt
git -C /repo log --reverse --format='%h %s' | grep ' fix:'
