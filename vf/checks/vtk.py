from main import check


@check('C20')
def c20(ctx):
    q = ctx.quick
    D = '{"none","vec","sca","field","ten","look","cells","both","ints"}'
    base = dict(Types='{"sp","rg","sg","ug"}', Modes='{TRUE,FALSE}', NXs='1..3', NYs='1..3', NZs='1..3', Meshes='1..11', DSets=D, Reals='{"f4","f8"}', Outs='{"write"}', K='0')
    b = ctx.model('Vtk', base, invs=('BlocksApart', 'Covered'))
    ctx.replay([x['ops'] for x in b], name='read')
    b = ctx.model('Vtk', dict(base, NXs='{1,3}', NYs='{2}', NZs='{1,2}', Reals='{"f4","f8"}', Outs='{"write","again"}', K='1'))
    b += ctx.model('Vtk', dict(base, NXs='{2}', NYs='{3}', NZs='{1,2}', Meshes='{2,4,9}', Reals='{"f4"}' if q else '{"f4","f8"}', Outs='{"another"}', K='1'))
    ctx.replay([x['ops'] for x in b], name='one step', cap=3000 if q else None)
    b = ctx.model('Vtk', dict(base, NXs='{2}', NYs='{3}', NZs='{2}', Meshes='{2,4}', Reals='{"f4"}', Outs='{"write","again","another"}', K='2' if q else '3',
                              DSets='{"sca","ten","both"}'))
    ctx.replay([x['ops'] for x in b], name='histories', cap=2000 if q else 20000)
