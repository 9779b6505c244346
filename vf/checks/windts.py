from main import check


@check('C28')
def c28(ctx):
    base = dict(Kinds='{"wnd","ts"}', NHs='{0,1,2,3,6}', NRs='{1,2,5}', NPs='{1,2,3,4}', NCs='{1,2,3}', Forms='0..3', Ops='{}', K='1')
    b = ctx.model('WndTs', base, invs=('Bijection',))
    ctx.replay([x['ops'] for x in b], name='layout')
    b = ctx.model('WndTs', dict(base, NHs='{0,3}', NRs='{1,2}', NPs='{1,2}', NCs='{2,3}', Forms='{0,3}', Ops='{"edit","more","reread"}', K='3' if ctx.quick else '4'), invs=('Bijection',))
    ctx.replay([x['ops'] for x in b], name='edited', cap=3000 if ctx.quick else None)
    b = ctx.model('StepWind', dict(Mins='{3,4}', NSteps='{1,2,5}', Incs='{1,2,4}', Holds='{10,100}', Tmaxs='{50,999}'), invs=('Increasing',))
    ctx.replay([x['ops'] for x in b], name='steps')
