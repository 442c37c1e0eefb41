PROP='C38'; FILE='src/keri/core/structing.py'
OLD='        path = Number(num=sn).snh'
NEW='        path = Number(num=sn % 256).snh'
NEEDS='two updates more than 255 apart'
BREAKS='one blinding factor for two updates'
