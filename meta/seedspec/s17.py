PROP='C20'; FILE='src/keri/core/kraming.py'
OLD='            if not rdt_ms - d - pml <= mdt_ms <= rdt_ms + d:'
NEW='            if not rdt_ms - pml <= mdt_ms <= rdt_ms + d:'
NEEDS='a query repeated after the cache has dropped it while its date still passes'
BREAKS='message accepted twice'
