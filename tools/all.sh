cd /verif; for i in "$@"; do python3-vt check.py $i 2>&1 | cut -c1-300 | head -8; done
