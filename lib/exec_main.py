"""Worker: exec_main.py ADAPTER IN OUT PER_JOB_SECONDS.  Runs each job of IN (ndjson) through
ADAPTER.run(job) against the code under test and appends the recorded trace to OUT."""
import importlib, io, json, os, signal, sys, contextlib, warnings
warnings.filterwarnings('ignore')


class JobTimeout(BaseException):
    pass


def alarm(sig, frm):
    raise JobTimeout()


def main():
    adapter, inf, ouf, per = sys.argv[1:5]
    signal.signal(signal.SIGALRM, alarm)
    try:
        mod = importlib.import_module('ad_' + adapter)
        err = None
    except Exception as e:                      # the code under test does not even import
        mod, err = None, 'import failed: %s: %s' % (type(e).__name__, e)
    sys.setrecursionlimit(3000)
    with open(ouf, 'a') as fo:
        for line in open(inf):
            job = json.loads(line)
            if err:
                out = dict(id=job['id'], crash=err)
            else:
                try:
                    signal.alarm(int(float(per)))
                    with contextlib.redirect_stdout(io.StringIO()):
                        out = mod.run(job)
                    signal.alarm(0)
                    out['id'] = job['id']
                    s = json.dumps(out)
                except JobTimeout:
                    out = dict(id=job['id'], crash='no answer within %s s' % per)
                except MemoryError:
                    out = dict(id=job['id'], crash='memory exhausted')
                finally:
                    signal.alarm(0)
            fo.write(json.dumps(out) + '\n')
            fo.flush()


main()
