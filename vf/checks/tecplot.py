from main import check


@check('C21')
def c21(ctx):
    q = ctx.quick
    base = dict(NVs='{1,2,3,7}', NRs='{1,2,3}', Names='{"plain","unit","blank","odd"}', Layouts='{"comma","blank","wide","lines","clines","bare"}', Heads='{"none","title","zone","aux","all"}', Ops='{"write"}', K='1')
    b = ctx.model('Tecplot', base)
    b += ctx.model('Tecplot', dict(base, NVs='{1,3}', NRs='{1,3}', Layouts='{"comma","lines"}', Heads='{"none","all","zone"}', Ops='{"edit","write","again","another"}', K='2' if q else '3'))
    ctx.replay([x['ops'] for x in b], name='tecplot', cap=5000 if q else 30000)
    b = ctx.model('Tecplot', dict(base, NVs='{30,400,1500}', NRs='{2}', Names='{"plain"}', Layouts='{"comma"}', Heads='{"none"}', K='0'), init='BigInit')
    ctx.replay([x['ops'] for x in b], name='wide')
