"""Second opinion on queries z3 leaves unknown: cvc5 through SMT-LIB."""
import subprocess, tempfile, os, z3


def second_opinion(cs, timeout=20, opts=()):
    s = z3.Solver()
    for c in cs:
        s.add(c)
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.splitlines() if not l.startswith('(set-info')).replace('bvsdiv_i', 'bvsdiv').replace('bvudiv_i', 'bvudiv').replace('bvurem_i', 'bvurem').replace('bvsrem_i', 'bvsrem')
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000)] + list(opts) + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 10)
        o = r.stdout.strip().splitlines()
        if o and o[0] == 'unsat':
            return 'valid', 'cvc5'
        if o and o[0] == 'sat':
            return 'invalid', 'cvc5'
    except Exception:
        return None
    finally:
        os.unlink(p)
    return None


def by_integers(cs, timeout):
    """words as integers: for sums of wide words; only an answer 'unsat' counts"""
    r = second_opinion(cs, timeout, ('--solve-bv-as-int=sum',))
    return 'unsat' if r and r[0] == 'valid' else None
