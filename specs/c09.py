"""C09: user notice events and anonymity."""
from common import *
import c08
def check(ctx):
    ctx.rule('the event variant, its payload accessors and the presence of the sender equal the documented function of the message id and sender id, in every case')
    c08.user_notice(ctx)
