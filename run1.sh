cd /verif && vx/target/release/vx ${SRC:-/repo/src} proofs/$1.vt out/$1.rs out/$1.json && python3 -c "
import json
for e in json.load(open('out/$1.json')):
  if e['errors']: print(e)
"; verus out/$1.rs --rlimit 150 --multiple-errors 5 --triggers-mode silent 2>&1 | tail -${2:-80}
