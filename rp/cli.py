"""Runs the slugs binary on a specification text inside a scratch directory."""
import subprocess, os, tempfile, shutil
class Run:
    __slots__ = ("rc", "out", "err", "timeout", "files")
    def __init__(self, rc, out, err, timeout, files): self.rc, self.out, self.err, self.timeout, self.files = rc, out, err, timeout, files
    @property
    def verdict(self):
        if "RESULT: Specification is realizable." in self.err: return True
        if "RESULT: Specification is unrealizable." in self.err: return False
        return None
class Slugs:
    def __init__(self, binary, scratch, timeout=10):
        self.bin, self.timeout = binary, timeout
        self.dir = tempfile.mkdtemp(prefix="w", dir=scratch)
    def run(self, text, opts=(), outfile=None, stdin=None, extra=(), raw=None):
        p = self.dir + "/s.slugsin"
        with open(p, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode())
        args = [self.bin] + list(opts) + [p] + [a for a in extra] + ([self.dir + "/" + outfile] if outfile else [])
        if raw is not None: args = [self.bin] + list(raw)
        try:
            r = subprocess.run(args, **({"stdin": subprocess.DEVNULL} if stdin is None else {"input": stdin.encode() if isinstance(stdin, str) else stdin}),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=self.timeout, cwd=self.dir)
            files = {}
            if outfile and os.path.exists(self.dir + "/" + outfile):
                with open(self.dir + "/" + outfile, "rb") as f: files[outfile] = f.read()
                os.unlink(self.dir + "/" + outfile)
            return Run(r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1"), False, files)
        except subprocess.TimeoutExpired:
            return Run(None, "", "", True, {})
