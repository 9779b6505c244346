from main import check


@check('C16')
def c16(ctx):
    base = dict(NSens='{1,2,3}', NSecs='{1,2,3}', NTs='{1,2,3}', Stores='{"R4","R8","I4","TX"}', Quotes='{0}', SecKinds='{0,1}',
                Conts='{0}', Seps='{0}', Times='{TRUE}', NRes='{1}', Stems='{"run"}', Firsts='{0}')
    inv = ('Placed', 'NoDup')
    b = ctx.model('Bladed', dict(base, Mode='"single"'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='sizes')
    b = ctx.model('Bladed', dict(base, Mode='"single"', NTs='{1,2,5}', Stores='{"R4","I4"}', Firsts='{1,2}'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='textlike')
    b = ctx.model('Bladed', dict(base, Mode='"single"', NSens='{1,3}', NSecs='{2}', NTs='{1,4}', Stores='{"R4","TX"}', Quotes='{0,1,2,3}', Conts='{0,1}',
                                 Seps='{0,1}', Times='{TRUE,FALSE}', Stems='{"run","d%1$/r[1]un.%x"}'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='headers', cap=1500 if ctx.quick else None)
    b = ctx.model('Bladed', dict(base, Mode='"project"', NTs='{2,3}', Quotes='{0,2}', Times='{TRUE,FALSE}', NRes='{1,2}', Stems='{"pr.j[x]"}'), invs=inv)
    ctx.replay([x['ops'] for x in b], name='project2')
    kw = dict(simulate=200) if False else {}
    b = ctx.model('Bladed', dict(base, Mode='"project"', NTs='{1,2,4}' if not ctx.quick else '{2,3}', Quotes='{0,1,2}' if not ctx.quick else '{1,2}', Times='{TRUE,FALSE}' if not ctx.quick else '{TRUE}',
                                 NRes='{3}', Stems='{"p"}'), invs=inv, **kw)
    ctx.replay([x['ops'] for x in b], name='project3', cap=2500 if ctx.quick else 20000)
