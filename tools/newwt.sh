#!/bin/bash
# fresh scratch copy of /repo for planting a bug
rm -rf /tmp/seedwt; cp -a /repo /tmp/seedwt; rm -rf /tmp/seedwt/target; git -C /tmp/seedwt checkout -q -- .
