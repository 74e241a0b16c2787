"""python -m dst.replay FILE -> JSON result on stdout"""
import json
import sys


def main():
    from . import runner
    v = json.load(open(sys.argv[1]))
    mod = runner.prepare(v['property'])
    r = runner.run_once(mod, v['params'], {'trace': v['trace'], 'flips': v['flips']}, keep_log=True)
    json.dump({'klass': r['klass'], 'msg': r['msg'], 'sig': r['sig'], 'steps': r['steps'],
               'log': r.get('log')}, sys.stdout)


if __name__ == '__main__':
    main()
