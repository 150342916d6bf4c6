"""python3-vt -m vf.check <property>"""
import sys, os, traceback
sys.setrecursionlimit(20000)
def main():
    pid = sys.argv[1]
    from . import report, build, props
    R = report.Report(pid)
    f = props.PROPS[pid]
    level = f(R) or 'proof'
    extra = None
    if isinstance(level, tuple): level, extra = level
    sys.exit(R.finish(level, extra=extra))
if __name__ == '__main__': main()
