from main import check


@check('C26')
def c26(ctx):
    q = ctx.quick
    base = dict(Kinds='{"pwr","ind","fext","defl","cmb","bmodes","rosco"}', NRs='{1,2,5}', NMs='{0,1,2,3}', Forms='{0,1,2}', Gens='{0,1,2}', Ops='{"another","edit","write"}', K='0')
    b = ctx.model('HStab', base, invs=['Consistent'])
    b += ctx.model('HStab', dict(base, NRs='{1,3}', NMs='{1,2}', Forms='{0,1,2}', Gens='{0,1}', Ops='{"another"}', K='1'))
    b += ctx.model('HStab', dict(base, Kinds='{"rosco"}', NRs='{1,3}', NMs='{1,2}', Forms='{0,2}', Gens='{0,1}', K='2' if q else '3'))
    b += ctx.model('HStab', base, init='BadInit')
    ctx.replay([x['ops'] for x in b], name='tables', cap=4000 if q else 40000)


@check('C27')
def c27(ctx):
    q = ctx.quick
    base = dict(Kinds='{"xlsx","parquet","nc","tdms"}', NTs='{1,2,3}', NRs='{0,1,4}', NCs='{1,2,4}', Forms='{0,1,2}', Gens='{0,1,2}', Ops='{"write"}', K='0')
    b = ctx.model('Book', base, invs=['NamesApart'])
    b += ctx.model('Book', dict(base, K='1'))
    b += ctx.model('Book', dict(base, NTs='{1,2}', NRs='{1,3}', NCs='{1,3}', Forms='{0,1,2}', Gens='{0,1}', Ops='{"another","replaced","edit","write"}', K='1'))
    b += ctx.model('Book', dict(base, NTs='{2}', NRs='{1,3}', NCs='{3}', Forms='{0,2}', Gens='{0,1}', Ops='{"another","edit","write"}', K='2' if q else '3'))
    ctx.replay([x['ops'] for x in b], name='containers', cap=2500 if q else 20000)
