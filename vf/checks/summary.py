from main import check


@check('C25')
def c25(ctx):
    q = ctx.quick
    base = dict(Starts='{0}', Ops='{}', Divs='{2}', NNs='2..4', Bs='1..3', Fs='0..4', NCBs='{1,2,4}', D2Ns='{3,4}', Joints='{0,1,2}', Ops2='{"full"}', K='0')
    b = ctx.model('Summary', base, init='SInit', next='SNext', emit='SEmit')
    ctx.replay([x['ops'] for x in b], name='summary', cap=1000 if q else 20000)
    h = dict(base, NNs='{2,3}', Bs='{1,2}', Fs='{0,3}', NCBs='{1}', D2Ns='{3}', Joints='{0}', Ops2='{}')
    b = ctx.model('Summary', dict(h, K='2' if q else '3'), init='SInit', next='SNext', emit='SEmit')
    b += ctx.model('Summary', dict(h, NNs='{2,3,5}', K='4'), init='SInit', next='SNext', emit='SEmit', simulate=150 if q else 3000, depth=5)
    ctx.replay([x['ops'] for x in b], name='histories', cap=1000 if q else 20000)
