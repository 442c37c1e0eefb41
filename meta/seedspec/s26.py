PROP='C33'; FILE='src/keri/app/watching.py'
OLD='            if observed.enabled and oid == watched:'
NEW='            if oid == watched:'
NEEDS='a watcher that is recorded and disabled'
BREAKS='a watcher that is disabled is counted when key state is judged'
