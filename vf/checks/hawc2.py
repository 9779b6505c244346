from main import check


@check('C18')
def c18(ctx):
    q = ctx.quick
    base = dict(Formats='{"bin","ascii","bhawc"}', NCs='{1,2,3,6}' if q else '1..7', NSs='{1,2,3}' if q else '1..5', Shifts='0..12', Bys='{"dat","sel"}', K='1')
    b = ctx.model('Hawc2Dat', base, invs=('NamesFit',))
    ctx.replay([x['ops'] for x in b], name='one step', cap=2500 if q else None)
    b = ctx.model('Hawc2Dat', dict(base, NCs='{2,5}' if q else '{1,2,5}', NSs='{1,3}', Shifts='{0,3}' if q else '0..3', Bys='{"dat","sel"}', K='2'))
    ctx.replay([x['ops'] for x in b], name='histories', cap=3000 if q else None)


@check('C19')
def c19(ctx):
    q = ctx.quick
    base = dict(Kinds='{"st","pc","ae"}', Gens='{0,1}', NAs='1..3', NBs='1..3', NRs='1..3', Forms='0..3', Ops='{"write","edit","add","setcol","another"}', K='1')
    b = ctx.model('Hawc2Tab', base, invs=('NamesApart',))
    b += ctx.model('Hawc2Tab', dict(base, NAs='{1,2}', NBs='{2}' if q else '{1,2}', NRs='{1}' if q else '{1,3}', Forms='{0,2}', Gens='{0,1}', K='2' if q else '3'), invs=('NamesApart',))
    ctx.replay([x['ops'] for x in b], name='tables', cap=4000 if q else None)
    base = dict(NBs='1..3', NSs='1..3', Forms='0..3', Sts='{"none","above","beside","noset","far"}', Ops='{"c2","line","sensor","write","another","del","addline","addsec","time"}', K='1')
    b = ctx.model('Hawc2Htc', base)
    b += ctx.model('Hawc2Htc', dict(base, NBs='{1,3}', NSs='{2}', Forms='{1,2}' if q else '0..3', Sts='{"none","above"}', K='2' if q else '3'))
    ctx.replay([x['ops'] for x in b], name='htc', cap=2500 if q else 20000)
