PROP='C05'; FILE='src/keri/core/eventing.py'
OLD='        if siger.index >= len(verfers):\n            logger.info(f"Skipped sig: index={siger.index} too large")'
NEW='        if siger.index > len(verfers):\n            logger.info(f"Skipped sig: index={siger.index} too large")'
NEEDS='a signature with the index just past the last key'
BREAKS='message is not refused but stops its processing'
