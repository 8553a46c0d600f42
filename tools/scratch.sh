#!/bin/bash
# fresh scratch copy of /repo in /tmp/seed
rm -rf /tmp/seed && cp -a /repo /tmp/seed && git -C /tmp/seed checkout -q -- .
