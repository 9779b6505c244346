from main import check

ALL = dict(Seps='1..6', NComs='{0,1,2}', CChars='1..4', NameKinds='0..3', UnitKinds='0..2', NCols='1..4', NRows='{1,2,3}', Pats='0..7', Encs='{4}', Nls='{0}', Opts='{0}',
           Ops='{"write"}', K='1')
INV = ('Unambiguous',)


def cut(x):
    """the part of a behaviour before the first write: reading only"""
    ops = x['ops']
    return ops[:[i for i, o in enumerate(ops) if o['op'] == 'write'][0]]


@check('C09')
def c09(ctx):
    b = ctx.model('Csv', dict(ALL, NComs='{0,1,3}', NRows='{0,1,2,4}'), invs=INV)
    ctx.replay([cut(x) for x in b], name='inferred', cap=12000 if ctx.quick else None)
    b = ctx.model('Csv', dict(ALL, Seps='{1,2,3,5}', NCols='{1,2,4}', Pats='{1,2,3,6,7}', NRows='{1,3}', Opts='1..10'), invs=INV)
    ctx.replay([cut(x) for x in b], name='given', cap=6000 if ctx.quick else None)
    b = ctx.model('Csv', dict(ALL, Seps='{1,2,3}', NComs='{0,1,4}', CChars='{1}', NCols='{2,4}', Pats='{1,2}', NRows='{1,3}', Encs='1..4', Nls='{0,1}', Opts='{0,1,5}'), invs=INV)
    ctx.replay([cut(x) for x in b], name='encodings', cap=4000 if ctx.quick else None)
    b = ctx.model('Csv', dict(ALL, Seps='{1,4}', NComs='{99,100,101,250}', CChars='{1}', NCols='{3}', Pats='{0,6}', NRows='{2,400}'), invs=INV)
    ctx.replay([cut(x) for x in b], name='long')


@check('C10')
def c10(ctx):
    b = ctx.model('Csv', dict(ALL, Opts='0..10', Encs='{1,4}' if not ctx.quick else '{4}', Seps='{1,2,3,5}', NCols='{1,2,4}', NRows='{1,3}' if ctx.quick else '{0,1,3}', UnitKinds='{0,1}'), invs=INV)
    ctx.replay([x['ops'] for x in b], name='rewritten', cap=5000 if ctx.quick else None)
    b = ctx.model('Csv', dict(ALL, Seps='{1,2,4}', Opts='{0,1,2,5,7}', NComs='{0,2}', CChars='{1}', NCols='{1,3}', NRows='{1,2}', UnitKinds='{0,2}', Pats='{1,2,3}', Ops='{"cell","name","row","reread"}',
                              K='3'), invs=INV)
    ctx.replay([x['ops'] for x in b], name='edited', cap=5000 if ctx.quick else None)
    b = ctx.model('CsvNew', dict(Seps='1..7', Heads='0..4', NCols='{1,2,3,5}', NRows='{0,1,2,5}', Pats='0..3'))
    ctx.replay([x['ops'] for x in b], name='made')
