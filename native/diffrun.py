import subprocess, tempfile, os, glob
class Srv:
    def __init__(self, exe, tmp):
        self.log = os.path.join(tmp, 'tsan')
        self.p = subprocess.Popen([exe, tmp], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, TSAN_OPTIONS='halt_on_error=1:exitcode=66:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1:log_path=' + self.log))
    def run(self, mode, cores, q, d):
        qb = q.encode('latin1'); db = d.encode('latin1')
        w = self.p.stdin; r = self.p.stdout
        w.write(b'%s %d %d %d\n' % (mode.encode(), cores, len(qb), len(db)) + qb + db); w.flush()
        h = r.readline().split()
        if h[0] == b'DIE':
            k = int(h[1])
            if k == 1066:      # ThreadSanitizer: tell a data race from a memory error
                logs = glob.glob(self.log + '.*')
                if not any(b'data race' in open(f, 'rb').read() for f in logs): k = 1067
                for f in logs: os.remove(f)
            return ('DIE', k)
        n = int(h[1]); o = []
        for _ in range(n):
            l = int(r.readline()); o.append(r.read(l).decode('latin1')); r.read(1)
        return o
    def close(self):
        self.p.stdin.close(); self.p.wait()
