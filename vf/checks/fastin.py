from main import check


@check('C07')
def c07(ctx):
    base = dict(Forms='1..34', Forms2='{6}', Descs='{1}', Seps='{1}', Labs='{1}', Edits='{3}', Nls='{0}', OpNames='{"write"}', K='1')
    inv = ('OnlyTargets',)
    b = ctx.model('FastInPar', dict(base, Descs='1..5', Seps='1..3', Labs='1..4'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='syntax')
    b = ctx.model('FastInPar', dict(base, Forms='{5,14}' if ctx.quick else '{1,5,9,14,20}', Forms2='1..34', Nls='{0,1}', Edits='1..16', OpNames='{"set","write"}', K='2'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='edits', cap=4000 if ctx.quick else None)
    b = ctx.model('FastInPar', dict(base, Forms='{5,15}', Edits='{1,8}' if ctx.quick else '{1,8,10}', Forms2='{21}', OpNames='{"set","write","unknown","reread","observe"}', K='3' if ctx.quick else '4'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='histories', cap=4000 if ctx.quick else 20000)


@check('C08')
def c08(ctx):
    base = dict(Kinds1='1..31', Kinds2='{0}', Ns='{0,1,2,3}', Pats='0..3', Coms='0..6', NFils='{0}', NOuts='{0}', Nodals='{0}', Gaps='{0,1}', OpNames='{"write"}', K='1')
    inv = ('Rect',)
    b = ctx.model('FastInTab', dict(base), invs=inv)
    ctx.replay([x['ops'] for x in b], name='kinds', cap=None if not ctx.quick else 2500)
    b = ctx.model('FastInTab', dict(base, Ns='{1,2}', Pats='{1}', Coms='{0}', Gaps='{0}', OpNames='{"cell","resize","write","reread"}', K='3'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='edits', cap=None if not ctx.quick else 3000)
    b = ctx.model('FastInTab', dict(base, Kinds2='1..29', Ns='{0,2}', Pats='{0}', Coms='{0}', Gaps='{0}'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='pairs', cap=None if not ctx.quick else 2500)
    b = ctx.model('FastInTab', dict(base, Kinds1='{1,18,31}', Ns='{2}', Pats='{0}', Coms='{0,1,2}', NFils='{0,1,2,3,9}', NOuts='{0,1,2,3,5}', Nodals='{0,1,3}', Gaps='{0}'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='lists')
    b = ctx.model('FastInSpecial', dict(Files='{"polar","beam","guyan","ssout","memout","tower","ext","ad14","coords"}', N1s='{1,2,3}' if ctx.quick else '1..5', N2s='{1,2,3}', N3s='{0,1,2}',
                                        OpNames='{"edit","reread"}', K='2' if ctx.quick else '3'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='special')
    b = ctx.model('FastInNew', dict(Files='{"ed","ad","polar","steady","free"}', Ns='{2,8,14}' if ctx.quick else '{1,2,3,8,14,20}', Tabs='{1,2}' if ctx.quick else '{1,2,3}',
                                    OpNames='{"table","par","com","unknown"}', K='2' if ctx.quick else '3'), invs=inv + ('ShapesStart',))
    ctx.replay([x['ops'] for x in b], name='new')
