cd /verif; ID=$1; ( export VERIF_SEED=1; time python3 check.py $ID > /tmp/out.$ID 2>&1; echo "exit $?" >> /tmp/out.$ID ) 2>/tmp/time.$ID; tail -${2:-15} /tmp/out.$ID; grep real /tmp/time.$ID
