#!/bin/bash
# Builds the harness once (warms the build cache); every check builds again from /repo's current tree.
exec bash /verif/run.sh C00 setup
