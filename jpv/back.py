import subprocess
def run(cmd, text, timeout_ms):
    try: p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
    except (subprocess.TimeoutExpired, FileNotFoundError): return False
    return p.stdout.strip().startswith('unsat')
def z3_unsat(smt2, timeout_ms, opts=()): return run(['z3', '-in', *opts, '-T:%d' % max(1, timeout_ms // 1000)], smt2, timeout_ms)
def cvc5_unsat(smt2, timeout_ms): return run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms, '-'], '(set-logic ALL)\n' + smt2, timeout_ms)
