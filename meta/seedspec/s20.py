PROP='C26'; FILE='src/keri/app/keeping.py'
OLD='            nxt=PubLot(pubs=pubs, ridx=ridx+1, kidx=kidx+csize, dt=dt)'
NEW='            nxt=PubLot(pubs=pubs, ridx=ridx+1, kidx=kidx+1, dt=dt)'
NEEDS='ingested keys, more than one at a time, then rotation'
BREAKS='keys made again from index already used'
