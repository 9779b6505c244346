from main import check


@check('C22')
def c22(ctx):
    q = ctx.quick
    base = dict(NXs='{0,1,4}', NUs='{0,1,3}', NYs='{0,1,3}', Jacs='{TRUE,FALSE}', Deriv='{TRUE,FALSE}', Trip='{TRUE,FALSE}', EDMs='{FALSE}', Winds='{FALSE}', Discs='{FALSE}', Ops='{}', K='0')
    b = ctx.model('FastLin', dict(base, NXs='{22}', NUs='{20}', NYs='{80}', Jacs='{TRUE}', Deriv='{TRUE,FALSE}', Trip='{TRUE}', EDMs='{TRUE}'), invs=('NamesApart',))
    ctx.replay([x['ops'] for x in b], name='names')
    b = ctx.model('FastLin', base)
    b += ctx.model('FastLin', dict(base, NXs='{2,6,14}', NUs='{2,10,13}', NYs='{5,9,40}', Winds='{TRUE,FALSE}', Discs='{TRUE}', EDMs='{TRUE}'))
    b += ctx.model('FastLin', dict(base, NXs='{0,2}', NUs='{0,2}', NYs='{0,3}', Deriv='{TRUE}', Trip='{TRUE}', EDMs='{TRUE,FALSE}', Winds='{TRUE,FALSE}', Ops='{"again","write","another"}', K='1' if q else '2'))
    ctx.replay([x['ops'] for x in b], name='lin', cap=4000 if q else 40000)
