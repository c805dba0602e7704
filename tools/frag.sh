cd /verif; python3-vt vpv/check.py $1 -v | grep -v "'z3-lin'\|'simplifier'\|'interval'"
