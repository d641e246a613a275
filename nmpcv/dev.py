import os, sys, importlib, tempfile, time, traceback
from .front import Front
from . import spec as sp

def main():
    pid = sys.argv[1]
    only = sys.argv[2:]
    m = importlib.import_module('nmpcv.props.' + pid.lower())
    specs = m.SPEC if isinstance(m.SPEC, (list, tuple)) else [m.SPEC]
    for S in specs:
        s = S()
        t0 = time.time()
        fr = Front(s.unit, tempfile.mkdtemp(prefix='nmpcv'))
        v = sp.Verifier(fr, s, pid)
        for key, con in s.contracts.items():
            if not con.do_verify or (only and not any(o in key for o in only)):
                continue
            n0 = len(v.obls)
            t1 = time.time()
            try:
                f = v.find(con.key, con.np, con.pick)
                if f is None:
                    print('MISSING', key)
                    continue
                outs = v.run_verify(f, con)
                print(f'== {key}: {len(outs)} outcomes', f'{time.time()-t1:.1f}s')
            except sp.Unsupported as e:
                print('UNSUPPORTED', key, e)
                os.environ.get('NMPCV_TB') and traceback.print_exc()
            okn = sum(1 for o in v.obls[n0:] if o.res)
            print('   ok:', okn, 'of', len(v.obls) - n0)
            for o in v.obls[n0:]:
                if o.res and not os.environ.get('NMPCV_OK'):
                    continue
                print(('  ok   ' if o.res else '  FAIL ' ), o.fn, o.line, o.name, '' if o.res else o.res.why)
                if not o.res and os.environ.get('NMPCV_SHOW'):
                    print('   GOAL', o.formula)
        if os.environ.get('NMPCV_SHOW'):
            for l in v.loops:
                print('LOOP', l['fn'], l['line'], l['cands'], l['kept'], l['t'])
                for n in l['inv']:
                    print('     ', n)
        print('notes', v.notes)
        print('inlined', v.inlined)
        print('trusted', v.trusted, f'{time.time()-t0:.1f}s')
if __name__ == '__main__':
    main()
