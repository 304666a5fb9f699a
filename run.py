"""
run.py ID [--tier quick|thorough] [--seed N]     decide property ID (exit 0 / 1)
run.py ID --replay FILE                          execute a replay file again (exit 1: it fails again)
run.py --all [--tier ...]                        all properties, one after the other
"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') is None or sys.pycache_prefix is None:
    # no stale byte code of a changed tree, and set iteration order of the code under test fixed
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.environ.setdefault('PYTHONPYCACHEPREFIX', '/nonexistent/pycache')
    if sys.pycache_prefix is None:
        os.execv(sys.executable, [sys.executable] + sys.argv)

from sim import engine  # noqa: E402
from sim.scenarios import ALL, get  # noqa: E402


def self_test():
    """ is the simulator itself usable here?  (independent of /repo) """
    import sqlite3
    import tempfile
    from sim import core, vfs
    with tempfile.TemporaryDirectory(dir=engine.SCRATCH) as root:
        digests = []
        for _ in range(2):
            sim = core.Sim()
            disk = vfs.SimDisk(sim, root)
            vfs.instance().attach(disk)

            def body():
                con = sqlite3.connect(os.path.join(root, 'test.db'))
                with con:
                    con.execute('CREATE TABLE t(x)')
                    con.execute('INSERT INTO t VALUES (1)')
                assert con.execute('SELECT x FROM t').fetchone() == (1,)
                con.close()
            sim.run_inline(body)
            vfs.instance().check()
            assert any(op == 'sync' for _, op, _, _ in sim.ops)
            digests.append(sim.digest.hexdigest())
        assert digests[0] == digests[1]
    print('simulator usable: SQLite %s on a simulated disk, %d operations' % (sqlite3.sqlite_version, len(sim.ops)))
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--all', action='store_true')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    parser.add_argument('--replay')
    parser.add_argument('--shrink')
    parser.add_argument('--case', type=int)
    parser.add_argument('--announce')
    parser.add_argument('--findings', action='store_true')
    parser.add_argument('--digest', action='store_true')
    parser.add_argument('--self-test', action='store_true')
    args = parser.parse_args()
    if args.self_test:
        return self_test()
    try:
        seed = int(args.seed)
    except ValueError:
        seed = int.from_bytes(args.seed.encode(), 'big') % (1 << 62)
    if args.all:
        code = 0
        for name in ALL:
            code = max(code, engine.main_check(get(name), seed, args.tier))
        return code
    scenario = get(args.property)
    if args.replay:
        return engine.do_replay(scenario, args.replay)
    if args.shrink:
        return engine.do_shrink(scenario, args.shrink)
    if args.findings:
        engine.setup_worker()
        for finding in engine.known_findings(scenario):
            with engine.simio.Stdout():
                present = scenario.demonstrate(finding, engine)
            if present:
                print('KNOWN-FINDING: property=%s %s' % (scenario.id, finding['what']))
        engine.cleanup_worker()
        return 0
    if args.case is not None:
        engine.setup_worker()

        def announce(plan):
            with open(args.announce, 'w', encoding='utf-8') as out:
                json.dump(plan, out)
        with engine.simio.Stdout():
            out = engine.run_case(scenario, seed, args.tier, args.case, announce if args.announce else None)
        engine.cleanup_worker()
        print(json.dumps({k: out[k] for k in ('case', 'runs', 'digests', 'violation', 'fired', 'probes')}
                         if not args.digest else out['digests']))
        return 0
    return engine.main_check(scenario, seed, args.tier)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
