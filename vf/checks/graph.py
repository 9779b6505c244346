from main import check

INV = ['UniqueIds', 'Closed']


def model(ctx):
    q = ctx.quick
    b = ctx.model('Graph', dict(Starts='{0,21,32}', Ops='{"add","bad","sort","data","rewire"}', Divs='{2}', K='2' if q else '3'), invs=INV, props=['Kept'])
    ctx.replay([x['ops'] for x in b], name='add', cap=2000 if q else 30000)
    b = ctx.model('Graph', dict(Starts='{21,33,44}', Ops='{"add","divide","sort","data","rewire"}', Divs='{1,2,3,5}', K='1'), invs=INV, props=['Kept'])
    b += ctx.model('Graph', dict(Starts='{21,43}', Ops='{"add","divide","sort","rewire"}', Divs='{2,3}', K='2' if q else '3'), invs=INV, props=['Kept'], simulate=None if q else 20000, depth=4)
    ctx.replay([x['ops'] for x in b], name='divide', cap=2500 if q else 30000)


def files(ctx):
    q = ctx.quick
    f = dict(Starts='{0}', Ops='{}', Divs='{2}', K='0', Kinds='{"sd","hd"}', NJs='{2,3,6}', NMs='{1,2,5}', JCols='{4,5,9}', MCols='{5,6,7}', CMs='{0,1,2}', Cols3='{4,5}')
    b = ctx.model('GraphFile', f, init='FInit', next='FNext', emit='FEmit')
    b += ctx.model('GraphFile', dict(f, NJs='{2,3}', NMs='{1,3}', JCols='{5}', MCols='{5,6}', CMs='{1}', Cols3='{5}', Ops='{"divide","again"}', Divs='{2,3}', K='2' if q else '3'), init='FInit', next='FNext', emit='FEmit')
    ctx.replay([x['ops'] for x in b], name='files', cap=2500 if q else 20000)


@check('C24')
def c24(ctx):
    for part in ctx.parts(model, files):
        part(ctx)
