"""C13: unescaping follows the escape table."""
import scan
def check(ctx):
    ctx.rule('abstract interpretation of the unescape functions over positions of the input: every piece of output accounts for the next unread piece of input as the escape table says, '
             'the whole input is accounted for at every return, and a borrowed result is returned exactly when the input has neither a backslash nor a substitute comma')
    scan.report(ctx, scan.unescape(ctx), ('func',))
