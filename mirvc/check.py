import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import extract, report


def main():
    pid = sys.argv[1]
    import registry
    ck = report.Check(pid)
    try:
        entry = registry.CHECKS[pid]()
        entry['run'](ck)
    except extract.BuildError as e:
        # The tree does not build: there is no code to judge.
        print('BUILD-ERROR', e)
        sys.exit(2)
    import notes
    ck.level = notes.CLAIMED.get(pid, {}).get('level', 'proof')
    sys.exit(ck.finish(native=entry.get('native'), always_native=entry.get('always_native', False), scope=entry.get('scope', '')))


if __name__ == '__main__':
    main()
