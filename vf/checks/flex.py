from main import check


@check('C17')
def c17(ctx):
    q = ctx.quick
    base = dict(Versions='{0,2,3}', Dates='{TRUE,FALSE}', NSs='{1,2,4}' if q else '1..4', NTs='{1,2,3,5}', Sensors='{"no","yes","blank","bad"}', Dts='{8}')
    b = ctx.model('FlexRes', dict(base, Sensors='{"no","yes","blank","bad"}'), invs=('Bijection',))
    ctx.replay([x['ops'] for x in b], name='results', cap=4000 if q else None)
    b = ctx.model('FlexRes', dict(base, NTs='{7,1000,4001,30011}', Sensors='{"no"}', Dates='{FALSE}', Dts='{3,7,10,100,1000}'), init='BigInit', next='Next', )
    ctx.replay([x['ops'] for x in b], name='long')
    base = dict(Kinds='{"bld"}', Gens='0..3', NAs='{1,2,5}', NBs='{1}', NCs='{1}', Forms='0..3', Ops='{"another"}', K='1')
    b = ctx.model('FlexText', base, invs=('ColumnsApart',))
    b += ctx.model('FlexText', dict(base, K='2', NAs='{1,3}', Forms='{0,3}'))
    b += ctx.model('FlexText', dict(base, Kinds='{"pro"}', Gens='{0}', NAs='1..3', NBs='1..3', NCs='1..3', Ops='{"edit","another"}', Forms='0..3'))
    b += ctx.model('FlexText', dict(base, Kinds='{"pro"}', Gens='{0}', NAs='1..2', NBs='{1,3}', NCs='{2}' if q else '{1,3}', Ops='{"edit","another"}', Forms='{0,3}', K='3'))
    b += ctx.model('FlexText', dict(base, Kinds='{"wko"}', Gens='{0}', NAs='1..4', NBs='1..4', NCs='{1,2,3}', Forms='{0}'), invs=('NamesApart',))
    b += ctx.model('FlexText', dict(base, Kinds='{"wko"}', Gens='{0}', NAs='1..2', NBs='1..2', NCs='{1,3}', Forms='{0}', K='2'))
    b += ctx.model('FlexText', dict(base, Kinds='{"doc"}', Gens='{0}', NAs='1..13', NBs='1..13', NCs='1..15', Forms='{0}'))
    b += ctx.model('FlexText', dict(base, Kinds='{"doc"}', Gens='{0}', NAs='{1,4,7,10}', NBs='{2,3,8,11}', NCs='{5,6,9,12}', Forms='{0}', K='2'))
    ctx.replay([x['ops'] for x in b], name='text', cap=6000 if q else None)
