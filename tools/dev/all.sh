cd /verif; python3 -c "
from rules import registry
print(' '.join(sorted(registry.P)))" | tr ' ' '\n' | xargs -P 8 -I{} sh -c 'python3 check.py {} > /tmp/chk.{}.txt 2>&1; echo {} $? $(grep -c UNDECIDED /tmp/chk.{}.txt) $(tail -1 /tmp/chk.{}.txt | cut -c1-150)' | sort
