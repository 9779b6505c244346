from main import check


@check('C11')
def c11(ctx):
    q = ctx.quick
    full = dict(IDs='{1,2,3,4}', NChs='{1,2,3}', NTs='{1,2,3}' if q else '{1,2,3,5}', Pats='{0,1}' if q else '{0,1,2}',
                Scls='{0,1,2,3,4}', T0s='{0,1}' if q else '{0,1,2}', Dts='{0,1}' if q else '{0,1,2}', LenNames='{10,20}', Descs='{0,1}', NameKinds='{0,1,2}')
    b = ctx.model('FastOutBin', full, invs=['DecodeInverts'])
    ctx.replay([x['ops'] for x in b], name='FastOutBin')
    b = ctx.model('FastOutBig', dict(IDs='{1,2,3,4}', NChs='{3,7}' if q else '{1,3,7,100}', Blocks='{1,2}', Extras='{0,1,5}' if q else '{0,1,2,5,1000}'),
                  invs=['Positions'])
    ctx.replay([x['ops'] for x in b], name='FastOutBig', limit=120)


@check('C12')
def c12(ctx):
    q = ctx.quick
    b = ctx.model('FastOutText', dict(NHs='{0,1,4}' if q else '{0,1,2,3,4,5}', NChs='{1,2,3}', NTs='{1,2,3}', Pats='{0,1,2,3}', Exts='{0,1}', Seps='{0,1,2}',
                                      Tails='{0,1,2}', Kinds='{"text","df"}', UnitForms='{0,1,2,3,4}'))
    ctx.replay([x['ops'] for x in b], name='FastOutText')
