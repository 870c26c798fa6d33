# -*- coding: utf-8 -*-
"""P46 - command line applications: commands of a folder, their environment and what they print."""
import contextlib
import importlib
import io
import logging
import os
import shutil
import sys
import tempfile
from pathlib import Path

from harness import gen

COMMAND = '''
import os
import click
import logging
from ngoschema.cli import pass_environment

SEEN = []


@click.command(%(name)r)
@click.argument('paths', nargs=-1)
@click.option('--fail', type=int, default=0)
@click.option('--boom', default='')
@pass_environment
def cli(env, paths, fail, boom):
    """%(text)s"""
    SEEN.append((env, paths, env.verbose, env.home, logging.getLogger().level, [env.resolve_path(p) for p in paths]))
    env.log('log %%s of %%i', %(name)r, len(paths))
    env.log('100%%')
    env.vlog('more %%s', %(name)r)
    click.echo(%(text)r)
    for p in paths:
        click.echo(str(env.resolve_path(p)))
    if boom:
        raise KeyError(boom)
    if fail:
        raise SystemExit(fail)
'''


def register(run):
    import click
    from click.testing import CliRunner
    from ngoschema import cli as lib
    run.rule = 'a distinct non-trivial case is a folder of commands and a history of at least 8 calls'
    run.assumptions = ['names of commands are lower case, in letters, digits and underscores']
    run.require(absent=530, calls=320, failures=150, homes=190, listed=450, misused=120, verbose=160)
    params = list(getattr(lib.base_cli, '__click_params__', []))

    @run.workload('commands', quick=60, thorough=1500)
    def _(c):
        rng = c.rng
        root = logging.getLogger()
        level, path, here = root.level, list(sys.path), os.getcwd()
        top = os.path.realpath(tempfile.mkdtemp(prefix='verif_p46_'))
        pk = 'vcli%i_%i' % (os.getpid(), c.index)
        try:
            folder = Path(top, pk, 'commands')
            folder.mkdir(parents=True)
            (folder.parent / '__init__.py').write_bytes(b'')
            (folder / '__init__.py').write_bytes(b'')
            texts = {}

            def add():
                n = '_'.join(rng.choice(['do', 'it', 'x', 'run2', 'all', 'cmd', 'py', 'a1']) for _ in range(rng.randint(1, 3)))
                if n not in texts:
                    texts[n] = 'text %s %i' % (gen.word(rng), rng.randint(0, 99))
                    (folder / ('cmd_%s.py' % n)).write_bytes((COMMAND % {'name': n.replace('_', '-'), 'text': texts[n]}).encode('utf-8'))
                    importlib.invalidate_caches()
            for _i in range(rng.randint(1, 4)):
                add()
            # files which are not commands
            others = rng.sample(['util.py', 'cmd_doc.txt', 'xcmd_no.py', 'cmd_old.pyc', 'cmd.py', 'commands_x.py'], rng.randint(0, 4))
            for o in others:
                (folder / o).write_bytes(COMMAND.encode('utf-8'))
            sys.path.insert(0, top)
            app = lib.ComplexCLI(pk, str(folder), **({'help': 'the application'} if rng.random() < .5 else {}))
            # click takes the options away from the function it makes a command of
            lib.base_cli.__click_params__ = list(params)
            main = click.command(cls=lambda **k: lib.ComplexCLI(pk, str(folder), **k))(lib.base_cli)
            homes = [top, str(folder), os.path.join(top, 'h o')]
            os.mkdir(homes[2])
            c.sig(sorted(texts), sorted(others), rng.random())

            def listed():
                want = sorted(n.replace('_', '-') for n in texts)
                c.equal(app.list_commands(None), want, 'commands of %r', sorted(os.listdir(str(folder))))
                for n in want:
                    got = app.get_command(None, n)
                    c.expect(isinstance(got, click.Command) and got.name == n, 'command %s is %r', n, got)
                    c.expect(got is app.get_command(None, n), 'command %s is another one the second time', n)
                    c.hit('listed')
                with contextlib.redirect_stdout(io.StringIO()):
                    for n in ('nope', 'util', 'no', ''):
                        if n not in want:
                            c.expect(app.get_command(None, n) is None, 'command %r is found', n)
                            c.hit('absent')

            listed()
            for _i in range(rng.randint(4, 8)):
                if rng.random() < .25:
                    # added while the application is running
                    add()
                    listed()
                if rng.random() < .3:
                    os.chdir(rng.choice(homes + [here]))
                n = rng.choice(sorted(texts))
                mod = importlib.import_module('%s.commands.cmd_%s' % (pk, n))
                del mod.SEEN[:]
                paths = [rng.choice(['a', 'b/c.txt', '../z', './q', '/abs/p', 'é x']) for _ in range(rng.randint(0, 3))]
                home = rng.choice([None, None] + homes)
                verbose = rng.random() < .5
                lv = rng.choice([None, 'CRITICAL', 'ERROR', 'WARNING', 'INFO', 'DEBUG'])
                fail = rng.choice([0, 0, 0, 3])
                boom = rng.choice(['', '', 'bad']) if not fail else ''
                args = []
                for opt in rng.sample(['h', 'v', 'l'], 3):
                    if opt == 'h' and home:
                        args += [rng.choice(['-h', '--home']), home]
                    elif opt == 'v' and verbose:
                        args.append(rng.choice(['-v', '--verbose']))
                    elif opt == 'l' and lv:
                        args += [rng.choice(['-l', '--log-level']), lv]
                args.append(n.replace('_', '-'))
                args += paths + (['--fail', str(fail)] if fail else []) + (['--boom', boom] if boom else [])
                c.log(args)
                root.setLevel(rng.choice([10, 25, 50]))
                base = Path(home) if home else Path(os.getcwd())
                resolved = [(base / p).resolve() for p in paths]
                out = [texts[n]] + [str(p) for p in resolved]
                err = ['log %s of %i' % (n.replace('_', '-'), len(paths)), '100%'] + (['more ' + n.replace('_', '-')] if verbose else [])
                how = rng.choice(['runner', 'run_cli', 'run_cli'])
                if how == 'runner':
                    try:
                        runner = CliRunner(mix_stderr=False)
                    except TypeError:
                        runner = CliRunner()
                    r = runner.invoke(main, args)
                    c.equal(r.exit_code, fail or (1 if boom else 0), 'exit code')
                    c.equal(r.stdout.splitlines(), out, 'standard output')
                    c.equal(r.stderr.splitlines(), err, 'standard error')
                else:
                    so, se = io.StringIO(), io.StringIO()
                    with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                        c.expect(lib.run_cli(main, args) is None, 'result of run_cli')
                    lines = [click.unstyle(x) for x in so.getvalue().splitlines() + se.getvalue().splitlines()]
                    for x in out:
                        c.expect(lines.count(x) >= out.count(x), 'run_cli does not print %r but %r', x, lines)
                    for x in err:
                        c.expect(x in lines, 'run_cli does not print %r but %r', x, lines)
                    told = "KeyError: 'bad'" if boom else 'SystemExit: 3' if fail else None
                    text = se.getvalue()
                    c.expect(told in text if told else 'Traceback' not in text, 'errors told by run_cli: %r', text)
                c.equal(len(mod.SEEN), 1, 'number of calls of the command')
                env, ps, vb, hm, rl, rs = mod.SEEN[0]
                c.expect(isinstance(env, lib.CliEnvironment), 'environment %r', env)
                c.equal(list(ps), paths, 'arguments')
                c.expect(vb is verbose, 'verbose is %r', vb)
                c.equal(Path(hm), base, 'home')
                c.equal(rl, getattr(logging, lv or 'WARNING'), 'level of the root logger')
                c.equal(rs, resolved, 'paths resolved')
                c.hit('calls')
                c.hit('failures', bool(fail or boom))
                c.hit('homes', bool(home))
                c.hit('verbose', verbose)
                # what is not understood calls nothing
                if rng.random() < .4:
                    del mod.SEEN[:]
                    bads = [['--nope'] + args, ['zz'] + args]
                    if not home:
                        bads.append(['-h', os.path.join(top, 'nowhere')] + args)
                        bads.append(['-h', str(folder / '__init__.py')] + args)
                    if not lv:
                        bads.append(['-l', 'LOUD'] + args)
                    bad = rng.choice(bads)
                    r = CliRunner().invoke(main, bad)
                    c.expect(r.exit_code == 2 and not mod.SEEN, '%r exits with %r', bad, r.exit_code)
                    c.hit('misused')
        finally:
            os.chdir(here)
            root.setLevel(level)
            sys.path[:] = path
            for m in [m for m in sys.modules if m == pk or m.startswith(pk + '.')]:
                del sys.modules[m]
            shutil.rmtree(top)
