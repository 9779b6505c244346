from main import check

DIM = dict(Nts='{2,3,4}', Nys='{2,3}', Nzs='{2,3}', NTwrs='{0,2}', Pats='{0,1,2,3}', Scls='{0,1,2}', Srcs='{"file","user"}', K='2')
INV = ['ShapeOK', 'PeriodicOK']


@check('C13')
def c13(ctx):
    q = ctx.quick
    ops = '{"write","set","periodic","header","reread"}'
    # every shape, one operation; then fewer shapes, pairs of operations
    c = dict(DIM, Nts='{2,3,5}' if q else '{2,3,4,5,6}', Nys='{2,3,4,5}', Nzs='{2,3,4}' if q else '{2,3,4,5}', NTwrs='{0,1,2,3,4}', Pats='{1,2}', Scls='{0,1}', OpNames=ops, K='1')
    ctx.replay([x['ops'] for x in ctx.model('TurbSim', c, invs=INV)], name='TurbSim')
    c = dict(DIM, Nts='{2,4}', NTwrs='{0,3}', OpNames=ops)
    if not q:
        c.update(Nts='{2,3,4}', Nys='{2,3,4}', Nzs='{2,3}', NTwrs='{0,1,2,3}')
    ctx.replay([x['ops'] for x in ctx.model('TurbSim', c, invs=INV)], name='TurbSim')


@check('C14')
def c14(ctx):
    q = ctx.quick
    ops = '{"valuesAt","lines","planes","profile","corr","df","repr","mid","probes","set","periodic","scale","write"}'
    c = dict(DIM, Nts='{4}', Nys='{3}', Nzs='{3}', NTwrs='{1}', Pats='{0}', Scls='{0}', Srcs='{"file"}', OpNames=ops)
    b = ctx.model('TurbSim', c, invs=INV)                     # all pairs of operations on one box
    ctx.replay([x['ops'] for x in b], name='TurbSim')
    c = dict(DIM, Nts='{2,4}', Nys='{2,3,5}' if q else '{2,3,4,5,7}', Nzs='{2,3,4}' if q else '{2,3,4,5}', NTwrs='{0,2}', Pats='{0,1}', Scls='{0,1}', OpNames=ops, K='1')
    b = ctx.model('TurbSim', c, invs=INV)                     # every operation on every box
    ctx.replay([x['ops'] for x in b], name='TurbSim')
    c = dict(DIM, Nts='{4}', Nys='{3}', Nzs='{3}', NTwrs='{2}', Pats='{0,1}', Scls='{0,1}', OpNames=ops, K='8')
    b = ctx.model('TurbSim', c, invs=INV, simulate=60 if q else 1500, depth=9)     # long histories
    ctx.replay([x['ops'] for x in b], name='TurbSim')


@check('C15')
def c15(ctx):
    q = ctx.quick
    c = dict(DIM, Nts='{2,3}', Nys='{2,3,4}', NTwrs='{0}', OpNames='{"mann","set","periodic"}')
    if not q:
        c.update(Nts='{2,3,4,5}', Nys='{2,3,4,5}', Nzs='{2,3,4}')
    b = ctx.model('TurbSim', c, invs=INV)
    ctx.replay([x['ops'] for x in b], name='TurbSim')
    ops = '{"valuesAt","time","df","repr","write","set","reread","nosize","detect"}'
    b = ctx.model('Mann', dict(Nxs='{1,3}' if q else '{1,2,3,4}', Nys='{1,2,3,4,5}', Nzs='{1,2,4}' if q else '{1,2,3,4,5}', NameForms='{0,1,2,3,4,5}', Spacings='{0,1,2,3}', Exts='{".u",".w",".bin"}',
                               OpNames=ops, K='1'), invs=['FlipTwice', 'Monotone'])
    ctx.replay([x['ops'] for x in b], name='Mann')
    b = ctx.model('Mann', dict(Nxs='{4}' if q else '{2,4}', Nys='{3}' if q else '{2,3}', Nzs='{3}', NameForms='{0}', Spacings='{1,2}', Exts='{".v"}', OpNames=ops, K='2' if q else '3'),
                  invs=['FlipTwice', 'Monotone'])
    ctx.replay([x['ops'] for x in b], name='Mann')
