"""Symbolic run of one contract: explore all paths of the real code, discharge every obligation."""
import time, traceback, sys, json, hashlib, os
from . import core, load, api
from .core import E, Unsupported, PathAbort, next_prefix

SOFT = (AttributeError, TypeError, NotImplementedError, RecursionError, AssertionError, MemoryError, NameError, ImportError)


def run_contract(c, seconds=120, tier='quick'):
    from .factory import SymbolicFactory
    E.reset_all()
    if tier == 'thorough':
        E.timeout_prove = 30000
    t0 = time.time()
    E.deadline = t0 + seconds
    load.install()
    load.fresh_modules()
    prefix = []
    paths, aborted, undecided, errors = 0, 0, [], []
    covers = 0
    while prefix is not None:
        E.reset_path(prefix)
        E.loop_contracts = {}
        E.manual_loops = {}
        E.random_hook = None
        E.rec_facts = []
        core._iota_depth[0] = 0
        from . import loops
        del loops.CTL[:]
        E.weak = None
        F = SymbolicFactory(c)
        nob = len(E.obligations)
        try:
            c['fn'](F)
            done = True
        except PathAbort:
            aborted += 1
        except Unsupported as u:
            undecided.append(str(u) + ' @ ' + where())
            if os.environ.get('PYVC_TRACE'):
                traceback.print_exc()
        except Exception as ex:          # the real code raised although the contract says it returns
            if os.environ.get('PYVC_TRACE'):
                traceback.print_exc()
            where_ = where()
            r, model = E.check(E.lemma_closure(E.all_pc()) + E.all_pc(), E.timeout_prove)
            if r == 'unsat':
                aborted += 1
            elif isinstance(ex, SOFT) or r == 'unknown' or in_contract():   # an exception inside the contract text itself is no verdict on the code
                undecided.append('%s: %s @ %s' % (type(ex).__name__, ex, where_))
            else:
                E.obligations.append(dict(name='no exception (%s: %s @ %s)' % (type(ex).__name__, str(ex)[:80], where_), status='refuted', backend='z3', weak=E.weak,
                                          time=0.0, model=E.concretise(E.all_pc(), model), goal='no exception escapes',
                                          decisions=[d[0] for d in E.decisions]))
        except core.z3.Z3Exception as ex:
            undecided.append('z3: ' + str(ex)[:100] + where())
        finally:
            F.undo()
        paths += 1
        for o in E.obligations[nob:]:
            o['path'] = paths
        # vacuity guard: a path that proved something must be reachable
        if len(E.obligations) > nob and any(o['status'] == 'discharged' for o in E.obligations[nob:]):
            r, _ = E.check(E.pc, E.timeout_feas)
            if r == 'sat':
                covers += 1
            elif r == 'unsat':
                for o in E.obligations[nob:]:
                    o['vacuous'] = True
        if paths >= c['paths']:
            undecided.append('path budget')
            break
        if time.time() - t0 > seconds:
            undecided.append('time budget')
            break
        prefix = next_prefix(E.decisions)
    obs = [o for o in E.obligations if not o.get('vacuous')]
    return dict(contract=c['name'], pid=c['pid'], functions=c['functions'], assumes=c['assumes'], paths=paths, aborted=aborted,
                covers=covers, undecided=sorted(set(undecided))[:10],
                obligations=len(obs), discharged=sum(o['status'] == 'discharged' for o in obs),
                unknown=[o['name'] for o in obs if o['status'] == 'unknown'],
                refuted=[o for o in obs if o['status'] == 'refuted'],
                names=sorted({o['name'] for o in obs}), solver_time=round(E.solver_time, 3), queries=E.queries,
                wall=round(time.time() - t0, 2), modules={k: v[1] for k, v in load.LOADED.items() if k.startswith('quocslib')})


def in_contract():
    last = ''
    for fr in traceback.extract_tb(sys.exc_info()[2]):
        if '/quocslib/' in fr.filename or '/contracts/' in fr.filename:
            last = fr.filename
    return '/contracts/' in last


def where():
    tb = sys.exc_info()[2]
    last = ''
    for fr in traceback.extract_tb(tb):
        if '/quocslib/' in fr.filename or '/contracts/' in fr.filename:
            last = '%s:%d' % (os.path.basename(fr.filename), fr.lineno)
    return last
