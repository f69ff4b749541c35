"""P15  Output is written only inside the configured results directory."""
from props.cli import *

TITLE = 'Output is written only inside the configured results directory'
RULE = ('Every call that creates, overwrites, moves or deletes a file or directory on any path of the command-line run is collected with the symbolic path it is given. '
        'The path must be the configured results directory or start with it and a separator, never leave it, and be preceded on every path by the creation of that directory '
        '(with its parents). The archived case file is the one named in the case file, copied under its own name.')
MIN = 100


def parts_of(p):
    """normalised list of path parts; absolute/normal forms are transparent"""
    if isinstance(p, str):
        return [p]
    out = []
    for q in p.parts:
        if isinstance(q, tuple) and q[0] in ('abspath', 'realpath', 'normpath', 'fspath') and len(q) == 2:
            out += undo(q[1])
        else:
            out.append(q)
    r = []
    for q in out:
        if isinstance(q, str) and r and isinstance(r[-1], str):
            r[-1] += q
        elif q != '':
            r.append(q)
    return r


def undo(k):
    if isinstance(k, tuple) and k and k[0] == 'sstr':
        return parts_of(SStr([p if isinstance(p, str) else p[1:] for p in k[1:]]))
    return [k] if isinstance(k, str) else [('?', k)]


def split(p):
    """path components: list of lists of parts"""
    comps = [[]]
    for q in parts_of(p):
        if isinstance(q, str):
            bits = q.split('/')
            comps[-1].append(bits[0])
            for b in bits[1:]:
                comps.append([b])
        else:
            comps[-1].append(q)
    comps = [tuple(x for x in c if x != '') for c in comps]
    absolute = comps and comps[0] == () and len(comps) > 1
    return (['/'] if absolute else []) + [c for c in comps if c not in ((), ('.',))]


PLAIN = ('file_name', 'case_name')


def plain(c):
    """one path component that stays where it is"""
    if c == ('..',):
        return False
    for q in c:
        if isinstance(q, tuple) and not (q[0] in PLAIN or q[0] == 'basename' or q[0] in ('stem', 'ext', 'num')):
            return False
    return True


def inside(p, root):
    c, r = split(p), split(root)
    return c[:len(r)] == r and all(plain(x) for x in c[len(r):])


def exists(p):
    return pred(mk_atom('sym', 'os.path.exists(%s)' % repr(dkey(p))))


def confined(ctx, r, root, inst, case_dir='case_dir', case_name='case_name'):
    made = []           # (components, condition)
    n = 0
    R = split(root)
    copied = False
    for e in r.events:
        if e.pc is False:
            continue
        loc = r.I.fmtloc(e.loc)
        if e.kind == 'open' and sink(e) is None:
            p = pathlike(e.data.get('path'))
            if p is not None and p == mkstr([strsym(case_dir), '/', strsym(case_name)]):
                copied = copied or 'read'
        s = sink(e)
        if s is None:
            continue
        what, p = s
        n += 1
        if p is UNKNOWN:
            ctx.fact('inside-results', '%s, %s' % (inst, what), None if e.kind != 'process' else False, '%s: %r' % (what, e.data.get('fn', p)), loc)
            continue
        src = pathlike(e.data.get('src')) if e.kind in ('file_copy', 'file_move') else None
        if e.kind == 'file_copy' and split(p) == R and src is not None:
            p = mkstr([p, '/', SStr(parts_of(src)[-1:])])      # copied into a directory: under its own name
        ok = inside(p, root)
        ctx.fact('inside-results', '%s, %s' % (inst, what), ok, '%s: %r is not inside the results directory %r' % (what, p, root), loc)
        if e.kind == 'delete':
            ctx.fact('no-delete', inst, ok and split(p) != R, 'deletes %r' % (p,), loc)
        if e.kind == 'file_move':
            ctx.fact('case-only-read', inst, inside(src, root) if src is not None else None, 'moves %r away' % (src,), loc)
        if not ok:
            continue
        if e.kind == 'mkdir':
            made.append((split(p), e.pc, exists(p)))
            ctx.fact('parents-created', inst, e.data.get('parents') is True, 'parents of %r are not created' % (p,), loc)
            continue
        d = split(p)[:-1]
        there = False
        for c, pc, ex in made:
            if c[:len(d)] == d:
                there = g_or(there, pc)
                if c == d:
                    there = g_or(there, ex)
        ctx.always('directory-first', '%s, %s' % (inst, what), there if made else False, e.pc, loc, 'writes %r before its directory is created' % (p,))
        if e.kind == 'file_copy':
            want = split(mkstr([strsym(case_dir), '/', strsym(case_name)]))
            dst = R + [((case_name,),)]
            if split(p) == dst:
                ctx.fact('case-archive', inst, src is not None and split(src) == want, 'the archived case file is a copy of %r' % (src,), loc)
                copied = True
        elif what == 'open for writing' and split(p) == R + [((case_name,),)] and copied == 'read':
            copied = True
    return n, copied


def run(ctx, inst, root=None, change=None, **kw):
    r = run_main(ctx, kw.pop('nc', 1), kw.pop('ns', 1), kw.pop('sails', 'jib_and_main'), kw.pop('prof', 'exponential'), 'linear', change=change)
    root = root(r) if root else strsym('out_dir')
    n, copied = confined(ctx, r, root, inst)
    if r.pc is False:
        ctx.fact('run', inst, None, 'the run does not complete', r.loc)
    else:
        # what is there to be judged: the workbook, the pressure plot, two section plots, the archived case
        ctx.fact('case-archive', inst + ', archived', copied is True, 'the case file is not archived under its own name', r.loc)
        kinds = [sink(e) for e in r.events]
        kinds = [k[1] for k in kinds if k and k[1] is not UNKNOWN]
        book = [k for k in kinds if parts_of(k)[-1:] and isinstance(parts_of(k)[-1], str) and parts_of(k)[-1].endswith('.xlsx')]
        ctx.fact('workbook', inst, any(split(k) == split(mkstr([root, '/', strsym('file_name') if ('output_args', 'file_name') not in (change or {}) else r.default['file_name'], '.xlsx']))
                                        for k in book) or None, 'no workbook <results>/<file name>.xlsx is written', r.loc)
    return r


def runs(ctx):
    for sails in KINDS:
        for prof in ('exponential', 'flat', 'logarithmic'):
            run(ctx, '%s, %s wind' % (sails, prof), sails=sails, prof=prof)
    for nc, ns in ((2, 1), (1, 2), (2, 2)) + (((3, 2), (2, 3)) if ctx.thorough else ()):
        run(ctx, '%dx%d panels' % (nc, ns), nc=nc, ns=ns)


def default_root(ctx):
    """no results directory configured: the documented default is the root, and all files share it"""
    def root(r):
        o = ctx.call(r.I, 'runner.container.Output')
        r.default = {n: r.I.getattr_(o, n) for n in ('name', 'file_name')}
        return r.default['name']

    def keep(r):
        root(r)
        return strsym('out_dir')
    run(ctx, 'default results directory', root, {('output_args', 'name'): DROP})
    run(ctx, 'default file name', keep, {('output_args', 'file_name'): DROP})


def plots(ctx):
    """the plotting functions on their own: any results directory and any coefficient"""
    q = 'solver.panels_plotter.plot_section_coeff'
    for k in (1, 2):
        for name in ('lift', 'drag'):
            for cols in (['blue', 'green'],):
                r = Run()
                I = r.I = ctx.interp()
                n0 = len(I.events)
                d = strsym('out_dir')
                ctx.call(I, q, I.mklist([tensor('x%d' % i, (2,)) for i in range(k)]), I.mklist([tensor('y%d' % i, (2,)) for i in range(k)]), d, name, I.mklist(cols))
                saved = [sink(e) for e in I.events[n0:] if sink(e)]
                ctx.fact('inside-results', 'section plot of %s, %d sails' % (name, k), len(saved) >= 1 and all(p is not UNKNOWN and inside(p, d) for w, p in saved), 'written to %r' % (saved,), ctx.anchorloc(q))
    q = 'solver.panels_plotter.plot_cp'
    for K in (1, 2, 3):
        I = ctx.interp()
        n0 = len(I.events)
        d = strsym('out_dir')
        ctx.call(I, q, tensor('mesh', (K, 4, 3)), tensor('p', (K,)), d)
        saved = [sink(e) for e in I.events[n0:] if sink(e)]
        ctx.fact('inside-results', 'pressure plot, %d panels' % K, len(saved) >= 1 and all(p is not UNKNOWN and inside(p, d) for w, p in saved), 'written to %r' % (saved,), ctx.anchorloc(q))


STEPS = [runs, default_root, plots]
