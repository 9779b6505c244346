from main import check


@check('C23')
def c23(ctx):
    q = ctx.quick
    base = dict(Elasts='{1,2}', Onoffs='0..1', Aeros='0..2', Moors='0..2', Layouts='{"flat"}', Gones='{""}', Unused='{""}', Lists='{"all"}', Styles='{1}', Bads='{""}', Ops='{}', K='0')
    b = ctx.model('Deck', dict(base, Elasts='{1}', Onoffs='{0,1}', Aeros='{0}', Moors='{3,4}'))
    b += ctx.model('Deck', base)                                                                 # every combination of switches
    b += ctx.model('Deck', dict(base, Onoffs='{1}', Moors='{1}', Aeros='{1,2}', Layouts='{"flat","sub","up","abs"}', Lists='{"all","fst","some","rest","one"}', Styles='{1,2}',
                                Gones='{"","ED","EDtwr","EDbld","BD","BDbld","IW","AD","ADbld","AF1","AF2","AC1","SrvD","HD","SD","MD"}'))
    b += ctx.model('Deck', dict(base, Onoffs='{1}', Moors='{2}', Aeros='{1,2}', Layouts='{"sub","up"}', Lists='{"all","rest"}', Styles='{1,2}',
                                Unused='{"ED","EDtwr","EDbld","BD","BDbld","IW","AD","ADbld","AF1","AF2","SrvD","HD","SD","MD"}'))
    b += ctx.model('Deck', dict(base, Onoffs='0..1', Moors='{2}' if q else '0..2', Layouts='{"flat"}' if q else '{"flat","up"}', Styles='{2}', Ops='{"write"}', K='1'))
    b += ctx.model('Deck', dict(base, Onoffs='{1}', Moors='{1,2}', Aeros='{1,2}', Layouts='{"up","sub"}', Styles='{1,2}', Ops='{"edit","write","ad","again"}', K='1' if q else '2'))
    b += ctx.model('Deck', dict(base, Onoffs='{1}', Moors='{2}', Aeros='{1,2}', Layouts='{"flat","up"}', Bads='{"AF1","AF2"}', Ops='{"again","another"}', K='1'))
    b += ctx.model('Deck', dict(base, Onoffs='0..1', Moors='{1,2}', Styles='{1,2}', Ops='{"over"}', K='1'))
    b += ctx.model('Deck', base, init='OtherInit')
    ctx.replay([x['ops'] for x in b], name='deck', cap=4000 if q else 30000)
    b = ctx.model('Deck', dict(base, Elasts='{1,2}' if not q else '{1}', Onoffs='0..1', Moors='{0,2}', Aeros='{0,2}', Layouts='{"up"}', Ops='{"another"}', K='1'))
    ctx.replay([x['ops'] for x in b], name='another', cap=600 if q else 20000)
