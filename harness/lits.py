# -*- coding: utf-8 -*-
"""Random literals (backquoted expressions and templates), each with its own reference evaluation.

A literal is (text, names it reads, function of an environment -> value).  The reference functions are built
together with the text, they never go through eval or jinja2.
"""


def int_expr(rng, names, depth=2):
    """an integer expression over integer names -> (text, names, f)"""
    k = rng.random()
    if depth == 0 or k < .25:
        if names and rng.random() < .75:
            n = rng.choice(names)
            t = n if rng.random() < .85 else 'this.' + n
            return t, {n}, (lambda e, n=n: e[n])
        v = rng.randint(0, 9)
        if names and rng.random() < .3:
            # a name bound in the expression is not a variable
            n = rng.choice(names)
            return 'sum(%s for %s in [%i])' % (n, n, v), set(), (lambda e, v=v: v)
        return str(v), set(), (lambda e, v=v: v)
    a, na, fa = int_expr(rng, names, depth - 1)
    b, nb, fb = int_expr(rng, names, depth - 1)
    op = rng.choice(['+', '-', '*', 'max', 'min', 'if', 'abs', '%', 'sum'])
    if op == '+':
        return '(%s+%s)' % (a, b), na | nb, lambda e: fa(e) + fb(e)
    if op == '-':
        return '(%s - %s)' % (a, b), na | nb, lambda e: fa(e) - fb(e)
    if op == '*':
        return '%s*3' % (a if a.isalnum() else '(%s)' % a), na, lambda e: fa(e) * 3
    if op == 'max':
        return 'max(%s, %s)' % (a, b), na | nb, lambda e: max(fa(e), fb(e))
    if op == 'min':
        return 'min(%s,%s)' % (a, b), na | nb, lambda e: min(fa(e), fb(e))
    if op == 'abs':
        return 'abs(%s)' % a, na, lambda e: abs(fa(e))
    if op == '%':
        return '(%s) %% 7' % a, na, lambda e: fa(e) % 7
    if op == 'sum':
        return 'sum([%s, %s, 1])' % (a, b), na | nb, lambda e: fa(e) + fb(e) + 1
    return '(%s if %s > %s else %s)' % (a, a, b, b), na | nb, lambda e: fa(e) if fa(e) > fb(e) else fb(e)


def str_expr(rng, names, ints=(), depth=1):
    """a text expression over text names (and integer names through str())"""
    def atom():
        r = rng.random()
        if ints and r < .3:
            n = rng.choice(ints)
            return 'str(%s)' % n, {n}, (lambda e, n=n: str(e[n]))
        if names and r < .85:
            n = rng.choice(names)
            return n, {n}, (lambda e, n=n: e[n])
        if names and r < .93:
            # a name in a text is not a variable
            n = rng.choice(names)
            return repr(n), set(), (lambda e, n=n: n)
        return "'k_9'", set(), (lambda e: 'k_9')
    a, na, fa = atom()
    op = rng.choice(['id', 'upper', 'cat', 'slice', 'len', 'fmt', 'rep'])
    if op == 'upper':
        return a + '.upper()', na, lambda e: fa(e).upper()
    if op == 'cat':
        b, nb, fb = atom()
        return a + " + '-' + " + b, na | nb, lambda e: fa(e) + '-' + fb(e)
    if op == 'slice':
        return a + '[:2]', na, lambda e: fa(e)[:2]
    if op == 'len':
        return 'str(len(%s))' % a, na, lambda e: str(len(fa(e)))
    if op == 'fmt':
        return "'<%%s>' %% %s" % a, na, lambda e: '<%s>' % fa(e)
    if op == 'rep':
        return '%s * 2' % a, na, lambda e: fa(e) * 2
    return a, na, fa


def template(rng, names, ints=(), arrays=()):
    """a template: text pieces, variables with filters, conditions, loops"""
    text, used, funs = '', set(), []
    pieces = rng.randint(1, 4)
    n_dyn = 0
    for i in range(pieces):
        kinds = ['text']
        if names:
            kinds += ['var', 'var', 'upper', 'length', 'method']
        if ints:
            kinds += ['int', 'calc', 'if', 'if']
        if arrays:
            kinds += ['loop', 'join']
        k = rng.choice(kinds)
        if i == pieces - 1 and not n_dyn:
            k = rng.choice([x for x in kinds if x != 'text'])
        n_dyn += k != 'text'
        if k == 'text':
            t = rng.choice(['ab', ' - ', '/x', 'p:', '_', '(1)'])
            text, f = text + t, (lambda e, t=t: t)
        elif k in ('var', 'upper', 'length', 'method'):
            n = rng.choice(names)
            used.add(n)
            s = n if rng.random() < .8 else 'this.' + n
            if k == 'var':
                text, f = text + rng.choice(['{{%s}}', '{{ %s }}']) % s, (lambda e, n=n: e[n])
            elif k == 'upper':
                text, f = text + '{{%s|upper}}' % s, (lambda e, n=n: e[n].upper())
            elif k == 'method':
                text, f = text + '{{ %s.lower() }}' % s, (lambda e, n=n: e[n].lower())
            else:
                text, f = text + '{{ %s|length }}' % s, (lambda e, n=n: str(len(e[n])))
        elif k == 'int':
            n = rng.choice(ints)
            used.add(n)
            text, f = text + '{{%s}}' % n, (lambda e, n=n: str(e[n]))
        elif k == 'calc':
            n = rng.choice(ints)
            used.add(n)
            text, f = text + '{{ %s*2 + 1 }}' % n, (lambda e, n=n: str(e[n] * 2 + 1))
        elif k == 'if':
            n, m = rng.choice(ints), rng.choice(names) if names else None
            b = rng.randint(-5, 9)
            used.add(n)
            if m is None:
                text, f = text + '{%% if %s > %i %%}Y{%% else %%}N{%% endif %%}' % (n, b), \
                    (lambda e, n=n, b=b: 'Y' if e[n] > b else 'N')
            else:
                used.add(m)
                text, f = text + '{%% if %s > %i %%}%s{%% else %%}{{%s}}{%% endif %%}' % (n, b, 'Y', m), \
                    (lambda e, n=n, b=b, m=m: 'Y' if e[n] > b else e[m])
        elif k == 'loop':
            n = rng.choice(arrays)
            used.add(n)
            text, f = text + '{%% for x in %s %%}{{x}},{%% endfor %%}' % n, \
                (lambda e, n=n: ''.join('%s,' % x for x in e[n]))
        else:
            n = rng.choice(arrays)
            used.add(n)
            text, f = text + "{{ %s|join('+') }}" % n, (lambda e, n=n: '+'.join(str(x) for x in e[n]))
        funs.append(f)
    return text, used, (lambda e: ''.join(f(e) for f in funs))
