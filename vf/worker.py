"""Runs cases of one check inside an instrumented interpreter."""
import glob
import hashlib
import importlib
import json
import os
import re
import shutil
import sys
import traceback

from vf.api import Ctx, Violation


def tsan_reports(scratch, seen):
    out = []
    for p in glob.glob(os.path.join(scratch, f'tsan.{os.getpid()}')):
        with open(p, errors='replace') as f:
            text = f.read()
        for rep in text.split('==================')[1:]:
            if 'WARNING: ThreadSanitizer' not in rep or rep in seen:
                continue
            seen.add(rep)
            out.append(rep)
    return out


def tsan_key(rep):
    """kind + innermost function of the tree for each side."""
    kind = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', rep).group(1).strip()
    names = []
    for block in re.split(r'\n\s*\n', rep):
        if not re.search(r'(Write|Read|write|read|Atomic|atomic) of size', block):
            continue
        name = None
        for m in re.finditer(r'#\d+ (.+?) (/\S+?|<null>)[: ]', block):
            if '/repo/' in m.group(2):
                name = re.sub(r'[<(].*', '', m.group(1)).split(' ')[-1]
                base = os.path.basename(m.group(2))
                name = f'{base}:{name}'
                break
        names.append(name or '?')
    return f'race:{kind}:' + '|'.join(sorted(names))


def tsan_relevant(rep):
    return '/repo/' in rep or 'stempy' in rep


def main():
    spec = json.load(sys.stdin)
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    os.close(null)
    chan = os.fdopen(spec['fd'], 'w', buffering=1)

    def send(**kw):
        chan.write(json.dumps(kw, default=_default) + '\n')
        chan.flush()

    import faulthandler
    import signal
    faulthandler.enable()
    if spec['variant'] == 'none':
        from vf import stub
        stub.install()
    mod = importlib.import_module(f'vf.checks.{spec["pid"].lower()}')
    import numpy as np
    phase = mod.PHASES[spec['phase']]
    scratch = os.environ['VF_SCRATCH']
    seen = set()
    sys.stdout.flush()
    for i in spec['indices']:
        h = hashlib.sha256(repr((spec['pid'], spec['phase'], spec['seed'], i)
                                ).encode()).digest()
        rng = np.random.default_rng(np.frombuffer(h, dtype=np.uint32))
        case = spec['case']
        if case is None:
            case = json.loads(json.dumps(mod.gen(rng, i, spec['tier'],
                                                 phase), default=_default))
        send(k='start', i=i, case=case)
        ctx = Ctx(scratch)
        ctx.case_index = i
        d = os.path.join(scratch, f'case{i}')
        os.makedirs(d, exist_ok=True)
        ctx.scratch = d
        try:
            mod.run(case, ctx)
        except Violation as e:
            send(k='viol', i=i, key=e.key, msg=e.msg[:6000], case=case)
        except (MemoryError,) as e:
            send(k='err', i=i, msg=f'{type(e).__name__}: {e}')
            continue
        except OSError as e:
            if e.errno in (28, 12, 24):
                send(k='err', i=i, msg=f'{type(e).__name__}: {e}')
                continue
            send(k='viol', i=i, key=f'exception:{type(e).__name__}',
                 msg=traceback.format_exc()[-6000:], case=case)
        except Exception as e:
            send(k='viol', i=i, key=f'exception:{type(e).__name__}',
                 msg=traceback.format_exc()[-6000:], case=case)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if phase['variant'] == 'tsan':
            for rep in tsan_reports(scratch, seen):
                if tsan_relevant(rep):
                    send(k='viol', i=i, key=tsan_key(rep), msg=rep[:6000],
                         case=case)
        sample = ctx.sample
        if sample is None:
            sample = case
        send(k='done', i=i, stats=dict(
            evals=ctx.evals or 1, tags=ctx.tags, counters=ctx.counters,
            sigs=ctx.sigs, sample=sample))
    send(k='bye')
    chan.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0) if phase.get('quick_exit', True) else sys.exit(0)


def _default(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


if __name__ == '__main__':
    main()
