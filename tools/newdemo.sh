#!/bin/bash
# tools/newdemo.sh ID < demo.py
D=/verif/seeded/$1; mkdir -p $D; cp /verif/tools/demo/h.py /verif/tools/demo/demo.sh $D/; cat > $D/demo.py
