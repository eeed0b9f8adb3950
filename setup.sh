#!/bin/bash
# builds the verifier from the committed sources
. /opt/vp/env.sh
mkdir -p /verif/build /verif/evidence /verif/replay
cd /verif/gvc && go build -o /verif/build/gvc.tmp.$$ . && mv /verif/build/gvc.tmp.$$ /verif/build/gvc
