#!/usr/bin/env python3
"""Decide one property: `check.py C01`.

Every harness of the property is compiled, together with the current source
of /repo, by Kani; CBMC executes it symbolically and a SAT/SMT solver decides
every assertion in it for all inputs within the harness's bounds.  A failed
assertion is turned into concrete values, which are replayed against a native
build of the same code (dev and release, Miri for undefined behaviour); only a
reproduced failure is a violation.

exit 0: all assertions hold.  exit 1: `VIOLATION property=.. replay=..`.
exit 2: no verdict (a solver ran out of time, a trace did not reproduce, a
vacuous harness, the code does not build).
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, 'work')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-A dangerous_implicit_autorefs -Awarnings',
           RUST_BACKTRACE='0', CARGO_TERM_COLOR='never')
ENV.pop('CARGO_TARGET_DIR', None)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
DEADLINE = T0 + (840 if TIER == 'quick' else 4 * 3600)
HARNESS_TIMEOUT = {'quick': 600, 'thorough': 3600}[TIER]
KANI = ['-Z', 'unstable-options', '-Z', 'stubbing']
CRATES = ['harness', 'harness-sync']
UNWIND = 'harness-unwind'
ULINE = re.compile(r'^\s*(c(\d\d)_\w+), (quick|thorough);', re.M)
OURS = re.compile(r'\b(static_alloc|without_alloc|exit_stack|alloc_traits|fill|unsize)::')
LINE = re.compile(r'^\s*(c(\d\d)_\w+), (\d+), (quick|thorough), (normal|must_panic|frees);', re.M)


def log(*a, **k):
    print(*a, flush=True, **k)


def left():
    return max(1.0, DEADLINE - time.time())


class H:
    def __init__(self, crate, mod, m):
        self.crate, self.mod, self.name = crate, mod, m[1]
        self.unwind, self.tier, self.kind = int(m[3]), m[4], m[5]
        self.id = f'{mod}::k::{self.name}'


def harnesses(prop):
    out = []
    for crate in CRATES:
        for f in sorted(glob.glob(f'{HERE}/{crate}/src/*.rs')):
            for m in LINE.finditer(open(f).read()):
                if int(m[2]) == int(prop[1:]) and (m[4] == 'quick' or TIER == 'thorough'):
                    out.append(H(crate, os.path.basename(f)[:-3], m))
    return out


class U:
    """A harness for the executor that unwinds (symex/)."""
    kind, unwind = 'normal', 0

    def __init__(self, mod, m):
        self.crate, self.mod, self.name, self.tier = UNWIND, mod, m[1], m[3]


def unwinding(prop):
    out = []
    for f in sorted(glob.glob(f'{HERE}/{UNWIND}/src/*.rs')):
        for m in ULINE.finditer(open(f).read()):
            if int(m[2]) == int(prop[1:]) and (m[3] == 'quick' or TIER == 'thorough'):
                out.append(U(os.path.basename(f)[:-3], m))
    return out


def lower():
    """Compile the harness and the crates of /repo to LLVM IR, afresh."""
    tgt, out = f'{WORK}/ir-target-{os.getpid()}', f'{WORK}/ir-{os.getpid()}'
    for d in (tgt, out):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(ENV, RUSTFLAGS=ENV['RUSTFLAGS'] + ' --emit=llvm-ir')
    rc, text = run(['cargo', '+nightly', 'build', '--lib', '--offline', '--features', 'symbolic', '--target-dir', tgt], f'{HERE}/{UNWIND}', max(left(), 60), env)
    os.makedirs(out)
    for root, _, fs in os.walk(tgt):
        for f in fs:
            if f.endswith('.ll') and not f.startswith(('build_script', 'autocfg')):
                shutil.copy(f'{root}/{f}', f'{out}/{f}')
    shutil.rmtree(tgt, ignore_errors=True)
    if rc != 0:
        log(text[-4000:])
        shutil.rmtree(out, ignore_errors=True)
        return None
    return out


def execute(ir, h):
    t = min(HARNESS_TIMEOUT, left())
    rc, text = run(['python3-vt', f'{HERE}/symex/sym.py', ir, h.name, str(t)], HERE, t + 60)
    try:
        return json.loads(text.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return dict(violations=[], cannot=[f'the executor failed: {text[-600:]}'], covers={}, functions=[])


def symex(prop, hs, urec, fatal, found):
    """Decide the harnesses by symbolic execution with unwinding."""
    ir = lower()
    if ir is None:
        fatal.append(f'{UNWIND}: does not build')
        return None
    try:
        with concurrent.futures.ThreadPoolExecutor(3) as pool:
            res = list(pool.map(lambda h: execute(ir, h), hs))
    finally:
        shutil.rmtree(ir, ignore_errors=True)
    for h, r in zip(hs, res):
        urec[h.name] = (h, r)
    for h, r in zip(hs, res):
        for v in r['violations']:
            vals = ';'.join(map(str, v['values']))
            log(f"  {h.name}: {v['kind']}: {v['what']} in {v['function']} [{vals}]")
            how = replay(h, vals, v['kind'], v['kind'] == 'unwind')
            if how is None:
                fatal.append(f"{h.name}: '{v['what']}' did not reproduce")
                continue
            kf = [k for k in known() if k[0] == prop and k[1] == h.name and k[2] in v['what']]
            if kf:
                found.append(kf[0])
                continue
            return h, (v['what'], vals, how[0], how[1])
        if r['cannot']:
            fatal.append(f"{h.name}: {r['cannot'][:3]}")
        elif not r['violations']:
            if not r['covers'] or not all(r['covers'].values()):
                fatal.append(f"{h.name}: vacuous: {r['covers']}")
    return None


def run(cmd, cwd, timeout, env=None):
    """Run in its own process group, so that a time limit ends every child."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace', start_new_session=True)
    try:
        text, _ = p.communicate(timeout=timeout)
        return p.returncode, text
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        text, _ = p.communicate()
        return None, text


def kani(crate, hs, extra=(), jobs=JOBS):
    """Returns {harness name: result} and the tool's output."""
    js = f'{WORK}/kani-{os.getpid()}-{time.time_ns()}.json'
    cmd = ['cargo', 'kani', '--target-dir', f'{WORK}/kani-{crate}', '--output-format', 'terse', *KANI, '-j', str(jobs),
           '--harness-timeout', str(int(min(HARNESS_TIMEOUT, left()))), '--export-json', js, '--exact']
    for h in hs:
        cmd += ['--harness', h.id]
    rc, text = run([*cmd, *extra], f'{HERE}/{crate}', left())
    res = {}
    if os.path.exists(js):
        d = json.load(open(js))
        os.unlink(js)
        stats = {x['harness_id']: x['cbmc_stats'] for x in d.get('cbmc', []) if x.get('cbmc_stats')}
        for r in d['verification_results']['results']:
            r['stats'] = stats.get(r['harness_id'], {})
            res[r['harness_id'].split('::')[-1]] = r
    return res, text


def is_unwind(c):
    return c['category'] in ('unwind', 'recursion') or 'unwinding assertion' in c['description'] or 'recursion' in c['description']


PANIC = ('assertion', 'panic')


def triage(h, r):
    """(failed checks that contradict the property, reasons for no verdict)."""
    bad, why = [], []
    if r is None:
        return bad, ['no result']
    if not r.get('checks'):
        return bad, [f"no result ({r.get('status')}: out of time or memory)"]
    for c in r['checks']:
        st, cat = c['status'], c['category']
        if st == 'Failure':
            if cat in ('unsupported_construct', 'missing_definition', 'internal_error'):
                why.append(f"not encodable: {c['description'][:160]}")
            elif h.kind == 'must_panic' and cat in PANIC and not c['location']['file'].startswith('src/'):
                pass  # the panic that has to happen
            else:
                bad.append(c)
        elif st in ('Undetermined', 'Error', 'SolverError'):
            why.append(f"undetermined: {c['description'][:120]}")
        elif cat == 'cover' and st != 'Satisfied':
            why.append(f"vacuous: witness '{c['description']}' is {st.lower()}")
    return bad, why


TRACE = re.compile(r'/// Check for `(\w+)`: (.*?)\n(.*?)\n\s*\];', re.S)


def traces(h, unwind=None):
    cmd = ['cargo', 'kani', '--target-dir', f'{WORK}/kani-{h.crate}', '--output-format', 'terse', *KANI, '-Z', 'concrete-playback',
           '--concrete-playback=print', '--harness-timeout', str(int(min(HARNESS_TIMEOUT, left()))), '--exact', '--harness', h.id]
    if unwind:
        cmd += ['--unwind', str(unwind)]
    rc, text = run(cmd, f'{HERE}/{h.crate}', left())
    out = []
    for m in TRACE.finditer(text):
        vals = ';'.join(v.replace(' ', '') for v in re.findall(r'vec!\[([\d, ]*)\]', m[3]))
        out.append((m[1], ' '.join(m[2].split()).strip('"'), vals))
    return out


CBMC = ['--no-malloc-may-fail', '--no-undefined-shift-check', '--no-signed-overflow-check', '--nan-check', '--no-self-loops-to-assumptions',
        '--no-pointer-primitive-check', '--object-bits', '16', '--sat-solver', 'cadical', '--trace', '--verbosity', '4', '--json-ui']


def cbmc_traces(h, descr, unwind=None):
    """Counterexamples of checks for which Kani prints none (memory accesses):
    CBMC again, on the program Kani has just checked."""
    progs = glob.glob(f'{WORK}/kani-{h.crate}/kani/*/debug/build/{h.crate}/*/out/*{len(h.name)}{h.name}.out') + \
        glob.glob(f'{WORK}/kani-{h.crate}/**/*{len(h.name)}{h.name}.out', recursive=True)
    if not progs:
        return []
    prog = max(progs, key=os.path.getmtime)
    rc, text = run(['cbmc', *CBMC, '--unwind', str(unwind or h.unwind), prog], HERE, left())
    out = []
    try:
        res = [r for x in json.loads(text[text.index('['):]) for r in x.get('result', [])]
    except ValueError:
        return out
    for r in res:
        if r.get('status') != 'FAILURE' or 'trace' not in r or r.get('description') not in descr:
            continue
        vals = []
        for s in r['trace']:
            if s.get('stepType') == 'assignment' and s.get('lhs', '').startswith('goto_symex$$return_value') and \
                    'any_raw' in s.get('sourceLocation', {}).get('function', ''):
                b = s['value'].get('binary', '')
                vals.append(','.join(str(int(b[i:i + 8], 2)) for i in range(len(b) - 8, -1, -8)))
        out.append(('memory', r['description'], ';'.join(vals)))
    return out


BUILT = {}


def native(crate, profile):
    if (crate, profile) not in BUILT:
        cmd = ['cargo', '+nightly', 'build', '--offline', '--target-dir', f'{WORK}/native-{crate}']
        if profile == 'release':
            cmd.append('--release')
        rc, text = run(cmd, f'{HERE}/{crate}', max(left(), 60))
        exe = f"{WORK}/native-{crate}/{'release' if profile == 'release' else 'debug'}/{crate}"
        if rc != 0 or not os.path.exists(exe):
            log(text[-3000:])
            exe = None
        BUILT[crate, profile] = exe
    return BUILT[crate, profile]


def replay(h, vals, cat, unwinding, miri=True):
    """Does the concrete run break the property?  -> (how, output) or None."""
    notes = []
    for profile in ('dev', 'release'):
        exe = native(h.crate, profile)
        if not exe:
            notes.append(f'{profile}: no build')
            continue
        rc, text = run([exe, h.name, vals], HERE, 20)
        notes.append(f'{profile}: exit {rc}')
        if rc is None:
            if unwinding:
                return f'{profile} build: does not terminate', text
            continue
        if rc < 0 or rc in (10, 11, 134, 139):
            return f'{profile} build: exit {rc}', text
    if not miri:
        return None
    # Undefined behaviour without a visible effect, or an effect that depends on
    # where the compiler places an object: Miri picks 16 different placements.
    # (Aliasing models are switched off, the solver does not judge them either.)
    env = dict(ENV, MIRIFLAGS='-Zmiri-disable-stacked-borrows -Zmiri-many-seeds=0..16')
    rc, text = run(['cargo', '+nightly', 'miri', 'run', '--offline', '--target-dir', f'{WORK}/miri-{h.crate}', '--',
                    h.name, vals], f'{HERE}/{h.crate}', max(left(), 60), env)
    notes.append(f'miri: exit {rc}')
    if rc not in (0, None) and 'REPLAY-' not in text.replace('REPLAY-OK', '') and ('Undefined Behavior' in text or rc in (10, 11) or 'panicked at' in text):
        return 'Miri', text
    log(f'  {h.name}: trace did not reproduce ({"; ".join(notes)})')
    return None


def known():
    out = []
    try:
        for l in open(f'{HERE}/known_findings.txt'):
            m = re.match(r'finding: property=(\w+) harness=(\w+) check="([^"]*)" (.*)', l)
            if m:
                out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def attempt(prop, h, bad, unwind=None, miri=True):
    """Replay the solver's counterexamples; returns a violation or None."""
    descr = {c['description'] for c in bad}
    got = traces(h, unwind)
    cats = {}
    for c in bad:
        cats.setdefault(c['description'], c['category'])
    seen = 0
    # Kani prints equal values once: those of a witness may be a counterexample.
    shared = [t for t in got if t[0] == 'cover'] if descr - {t[1] for t in got} else []
    order = sorted((t for t in got if t[0] != 'cover'), key=lambda t: t[1] not in descr) + shared
    for kind, what, vals in order:
        if h.kind == 'must_panic' and kind == 'assertion' and what not in descr:
            continue
        seen += 1
        unwinding = any(is_unwind(c) for c in bad)
        r = replay(h, vals, cats.get(what, kind), unwinding, miri)
        if r:
            return sorted(descr)[0] if kind == 'cover' else what, vals, r[0], r[1]
    rest = descr - {t[1] for t in order}
    tried = {t[2] for t in order}
    for kind, what, vals in cbmc_traces(h, rest, unwind) if rest else []:
        seen += 1
        if vals not in tried:
            tried.add(vals)
            r = replay(h, vals, cats.get(what, kind), any(is_unwind(c) for c in bad), miri)
            if r:
                return what, vals, r[0], r[1]
    if not seen:
        # A counterexample without any symbolic input.
        r = replay(h, '', 'x', any(is_unwind(c) for c in bad), miri)
        if r:
            return sorted(descr)[0], '', r[0], r[1]
    return None


def save(prop, h, v):
    what, vals, how, text = v
    d = f'{WORK}/replay'
    os.makedirs(d, exist_ok=True)
    path = f'{d}/{prop}-{h.name}.txt'
    with open(path, 'w') as f:
        f.write(f'property: {prop}\nharness: {h.crate}/src/{h.mod}.rs {h.name}\nassertion: {what}\nreproduced: {how}\nvalues: {vals}\n'
                f'rerun: {HERE}/replay.sh {path}\n--- output of the native run\n{text[-6000:]}\n')
    return path


def main():
    prop = sys.argv[1]
    os.makedirs(WORK, exist_ok=True)
    hs = harnesses(prop)
    us = unwinding(prop)
    if not hs and not us:
        log(f'no harness for {prop}')
        return 2
    urec = {}
    results, fatal, viol, found = {}, [], [], []
    rec = {}
    for crate in CRATES:
        group = [h for h in hs if h.crate == crate]
        if not group:
            continue
        res, text = {}, ''
        # Harnesses that are expected to fail (by a panic) must not stop the rest.
        for part, extra in (([h for h in group if h.kind != 'must_panic'], ['--fail-fast']), ([h for h in group if h.kind == 'must_panic'], [])):
            if part:
                r1, text = kani(crate, part, extra)
                res.update(r1)
        if not res:
            log(text[-5000:])
            fatal.append(f'{crate}: no verification results (build failure?)')
        # Those with a verdict first, counterexamples and the quickest first; then those cut short.
        done = sorted((h for h in group if (res.get(h.name) or {}).get('checks')),
                      key=lambda h: (all(is_unwind(c) for c in triage(h, res[h.name])[0]), res[h.name].get('duration_ms') or 0))
        for h in done + [h for h in group if h not in done]:
            if res and h not in done and h.name not in res:
                r1, text = kani(crate, [h for h in group if h not in done and h.name not in res])
                res.update(r1)
                res.setdefault(h.name, None)
            r = res.get(h.name)
            used = h.unwind
            bad, why = triage(h, r)
            hard = [c for c in bad if not is_unwind(c)]
            v = None
            if hard:
                log(f"  {h.name}: " + '; '.join(sorted({f"{c['description'][:100]} ({c['location']['file']}:{c['location']['line']})" for c in hard}))[:900])
                v = attempt(prop, h, hard)
            # A loop that never ends?
            if v is None and bad and not hard:
                v = attempt(prop, h, bad, used, False)
            # A bound that is too small is no verdict: enlarge it.
            step = 0
            while v is None and any(is_unwind(c) for c in bad) and step < 3 and left() > 30:
                step += 1
                used *= 2
                log(f'  {h.name}: unwinding bound {used // 2} too small, retrying with {used}')
                res2, _ = kani(crate, [h], ['--unwind', str(used)], jobs=1)
                r2 = res2.get(h.name)
                if r2 is None or not r2.get('checks'):
                    break
                r = r2
                bad, why = triage(h, r)
                hard = [c for c in bad if not is_unwind(c)]
                if hard:
                    v = attempt(prop, h, hard, used)
            if v is None and bad and not hard:
                v = attempt(prop, h, bad, used)
            if v:
                kf = [k for k in known() if k[0] == prop and k[1] == h.name and k[2] in v[0]]
                if kf:
                    found.append(kf[0])
                else:
                    viol.append((h, v, save(prop, h, v)))
                    log(f"VIOLATION property={prop} replay={viol[-1][2]}")
            elif bad:
                fatal.append(f"{h.name}: failed checks did not reproduce: {sorted({c['description'] for c in bad})[:3]}")
            elif why:
                fatal.append(f'{h.name}: {sorted(set(why))[:3]}')
            rec[h.name] = (h, r, used)
            if viol:
                break  # one counterexample decides
        if viol:
            break
    if us and not viol:
        got = symex(prop, us, urec, fatal, found)
        if got:
            viol.append((got[0], got[1], save(prop, *got)))
            log(f"VIOLATION property={prop} replay={viol[-1][2]}")
    evidence(prop, rec, viol, fatal, urec)
    for k in found:
        log(f'KNOWN-FINDING: property={prop} {k[3]}')
    for h, v, p in viol:
        log(f'  {h.name}: "{v[0]}" fails, values {v[1]!r}, reproduced by {v[2]}')
    if viol:
        return 1
    if fatal:
        log('NO VERDICT:', *fatal, sep='\n  ')
        return 2
    log(f'{prop}: {len(rec) + len(urec)} harnesses hold ({time.time() - T0:.0f}s)')
    return 0


def evidence(prop, rec, viol, fatal, urec):
    fns, per, tot = set(), [], dict(checks=0, vccs=0, solved=0, steps=0, solver=0.0, witnesses=0)
    for name, (h, r, used) in rec.items():
        cs = (r or {}).get('checks') or []
        st = (r or {}).get('stats') or {}
        for c in cs:
            f = c['location']['file']
            if '/repo/' in f or f.startswith('../../repo'):
                fns.add(re.sub(r"'_|'\w+", "'_", c['function']))
        decided = sum(c['status'] in ('Success', 'Failure', 'Unreachable', 'Satisfied') for c in cs)
        wit = [c['description'] for c in cs if c['category'] == 'cover' and c['status'] == 'Satisfied']
        solver = float(st.get('runtime_decision_procedure_s') or 0)
        per.append(dict(harness=name, kind=h.kind, unwind=used, status=(r or {}).get('status'), assertions=decided,
                        vccs_generated=st.get('vccs_generated'), vccs_sent_to_solver=st.get('vccs_remaining'),
                        ssa_steps=st.get('size_program_expression'), solver_s=round(solver, 3), witnesses_satisfied=wit,
                        wall_s=round(((r or {}).get('duration_ms') or 0) / 1000, 2)))
        tot['checks'] += decided
        tot['vccs'] += st.get('vccs_generated') or 0
        tot['solved'] += st.get('vccs_remaining') or 0
        tot['steps'] += st.get('size_program_expression') or 0
        tot['solver'] += solver
        tot['witnesses'] += len(wit)
    for name, (h, r) in urec.items():
        fns |= {f for f in r['functions'] if OURS.search(f)}
        ok = not r['violations'] and not r['cannot']
        per.append(dict(harness=name, kind='unwinding', status='Success' if ok else 'Failure', assertions=r.get('asserts'),
                        memory_and_overflow_checks=r.get('checks'), paths=r.get('paths'), panics=r.get('throws'), aborted_paths=r.get('aborted'),
                        instructions=r.get('steps'), solver_queries=r.get('queries'), unsat=r.get('unsat'), solver_s=r.get('solver_s'),
                        witnesses_satisfied=[k for k, v in r['covers'].items() if v], wall_s=r.get('wall_s')))
        tot['checks'] += (r.get('asserts') or 0) + (r.get('checks') or 0)
        tot['solved'] += r.get('queries') or 0
        tot['steps'] += r.get('steps') or 0
        tot['solver'] += r.get('solver_s') or 0
        tot['witnesses'] += sum(r['covers'].values())
    how = []
    if rec:
        how.append('Bounded symbolic model checking of the compiled code (Kani 0.68 -> CBMC 6.11 -> CaDiCaL): every harness '
                   'executes the functions listed under functions_encoded with symbolic inputs; each assertion, and every '
                   'built-in memory-safety and overflow check, is decided for all values within the bounds of the harness; '
                   'unwinding assertions check that the loop bounds suffice; every witness (reachability of the '
                   'interesting case) was shown satisfiable.')
    if urec:
        how.append('Symbolic execution, with unwinding, of the LLVM IR that rustc makes of the current source (symex/sym.py, z3): '
                   'every feasible path of each harness is executed, z3 decides each branch, assertion and memory access for all '
                   'values of the inputs; a panic unwinds through the landing pads and cleanup code the compiler generated.')
    holding = sum(p['status'] == 'Success' or p['kind'] == 'must_panic' for p in per)
    bounds = {}
    try:
        for l in open(f'{HERE}/properties.jsonl'):
            p = json.loads(l)
            if p['id'] == prop:
                bounds = p['quantifier']['text']
    except (OSError, ValueError):
        pass
    ev = dict(property=prop, tier=TIER, seed=SEED, level='other', wall_s=round(time.time() - T0, 1), violations=len(viol),
              coverage=dict(
                  explanation=' '.join(how),
                  harnesses_run=len(per), harnesses_holding=holding, assertions_decided=tot['checks'], vccs_generated=tot['vccs'],
                  vccs_sent_to_solver=tot['solved'], ssa_steps=tot['steps'], solver_s=round(tot['solver'], 2),
                  witnesses_satisfied=tot['witnesses'], functions_encoded=sorted(fns), functions_encoded_count=len(fns),
                  bounds=bounds, per_harness=per, samples=[f"{h.crate}/src/{h.mod}.rs:{h.name}" for h, *_ in [*rec.values(), *urec.values()][:20]],
                  no_verdict=fatal),
              assumptions=['64-bit little-endian target; allocation by the system allocator does not fail',
                           'trusted: '
                           + ' and '.join((['Kani, CBMC and the SAT solver (panics end a run there, unwinding is not executed)'] if rec else [])
                                          + (['symex/ and z3'] if urec else [])),
                           'single-threaded execution unless the property says otherwise',
                           'one concrete instantiation of each generic function per harness, as listed'])
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    with open(f'{HERE}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
