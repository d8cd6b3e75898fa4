cd /verif
for m in bo opt space util acq options models config benchmarks; do (python3 /tmp/t3.py $m > /tmp/all.$m 2>&1; grep -v "^held\|^shape\|^known\|^rule" /tmp/all.$m|cut -c1-300) & done; wait
