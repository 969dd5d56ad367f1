"""Runs the command line program as an execution server against a stand-in for the NetsBlox server on the loopback interface."""
import base64, hashlib, http.client, http.server, json, os, signal, socket, struct, subprocess, sys, tempfile, threading, time

NB = os.environ["NB"]

class Mock:
    """answers: path -> (status, content type, body); frames: what the client sent over the websocket"""
    def __init__(self):
        self.answers, self.seen, self.frames, self.ws = {}, [], [], None
        self.sock = socket.socket(); self.sock.bind(("127.0.0.1", 0)); self.sock.listen(50)
        self.port = self.sock.getsockname()[1]
        self.url = f"http://127.0.0.1:{self.port}"
        threading.Thread(target=self.accept, daemon=True).start()
    def accept(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        r = c.makefile("rb")
        while True:
            line = r.readline().decode()
            if not line.strip(): return
            method, target, _ = line.split(" ", 2)
            h = {}
            while True:
                x = r.readline().decode().strip()
                if not x: break
                k, v = x.split(":", 1); h[k.lower()] = v.strip()
            body = r.read(int(h.get("content-length", 0)))
            path = target.split("?")[0]
            if path.endswith("/connect"):
                key = base64.b64encode(hashlib.sha1((h["sec-websocket-key"] + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
                c.sendall(f"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {key}\r\n\r\n".encode())
                self.ws = c
                return self.wsloop(r)
            if path == "/configuration": st, ct, b = 200, "application/json", json.dumps({"servicesHosts": [{"url": self.url + "/services", "categories": []}]})
            elif path.startswith("/projects"): st, ct, b = 200, "application/json", json.dumps({"id": "P", "roles": {"R": {"name": "myRole", "code": ""}}})
            elif path.startswith("/network/"): st, ct, b = 200, "application/json", "{}"
            else:
                self.seen.append((path, body))
                st, ct, b = self.answers.get(path, (404, "text/plain", "nothing here"))
            b = b if isinstance(b, bytes) else b.encode()
            c.sendall(f"HTTP/1.1 {st} X\r\nContent-Type: {ct}\r\nContent-Length: {len(b)}\r\n\r\n".encode() + b)
    def wsloop(self, r):
        while True:
            h = r.read(2)
            if len(h) < 2: return
            n = h[1] & 127
            if n == 126: n = struct.unpack(">H", r.read(2))[0]
            elif n == 127: n = struct.unpack(">Q", r.read(8))[0]
            m = r.read(4); d = bytes(b ^ m[i % 4] for i, b in enumerate(r.read(n)))
            if h[0] & 15 == 1: self.frames.append(json.loads(d))
    def send(self, j):
        d = json.dumps(j).encode()
        self.ws.sendall(bytes([0x81]) + (bytes([len(d)]) if len(d) < 126 else bytes([126]) + struct.pack(">H", len(d))) + d)

class Nb:
    def __init__(self, *args, mock=None):
        self.mock = mock or Mock()
        with socket.socket() as s: s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1]
        self.dir = tempfile.mkdtemp()
        env = {k: v for k, v in os.environ.items() if "proxy" not in k.lower()}
        self.p = subprocess.Popen([NB, *args, "start", "--server", self.mock.url, "--port", str(self.port)], cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.out, self.errors, self.running = "", [], True
        for _ in range(1000):
            try: self.http("GET", "/project"); break
            except OSError: time.sleep(0.02)
    def http(self, method, path, body=b""):
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=20)
        c.request(method, path, body if isinstance(body, bytes) else body.encode())
        r = c.getresponse(); return r.status, r.read()
    def load(self, *scripts): self.http("POST", "/project", project(*scripts))
    def input(self, x): self.http("POST", "/input", x)
    def toggle(self): self.http("POST", "/toggle-paused")
    def project(self): return self.http("GET", "/project")[1].decode()
    def pull(self):
        j = json.loads(self.http("POST", "/pull")[1])
        self.out += j["output"]; self.errors += j["errors"]; self.running = j["running"]
    def until(self, f, seconds=15):
        end = time.time() + seconds
        while time.time() < end:
            self.pull()
            if f(self): return True
            time.sleep(0.005)
        return False
    def settle(self, seconds=0.5):
        end = time.time() + seconds
        while time.time() < end: self.pull(); time.sleep(0.01)
    def said(self): return [l.split(" > ", 1)[1].strip('"') for l in self.out.splitlines() if " > " in l]
    def close(self):
        self.p.kill(); self.p.wait()
        for f in os.listdir(self.dir): os.remove(os.path.join(self.dir, f))
        os.rmdir(self.dir)

ids = [0]
def b(s, *inner):
    ids[0] += 1
    return f'<block s="{s}" collabId="item_{ids[0]}">{"".join(inner)}</block>'
def var(v):
    ids[0] += 1
    return f'<block var="{v}" collabId="item_{ids[0]}"/>'
def l(t): return "<l>" + str(t).replace("&", "&amp;").replace("<", "&lt;") + "</l>"
def lst(*x): return "<list>" + "".join(x) + "</list>"
def join(*x): return b("reportJoinWords", lst(*x))
def say(x): return b("bubble", x)
def say_text(t): return say(l(t))
def declare(*vs): return b("doDeclareVariables", lst(*map(l, vs)))
def let(v, x): return b("doSetVar", l(v), x)
def body(*x): return "<script>" + "".join(x) + "</script>"
def attempt(*x): return b("doTryCatch", body(*x), l("e"), body(say(join(l("refused: "), var("e")))))
def syscall(name, *args): return b("nativeCallSyscall", l(name), lst(*args))
def flag(*x): return '<script x="1" y="1">' + b("receiveGo") + "".join(x) + "</script>"
def project(*scripts):
    e = open(os.path.join(os.environ["REPO"], "src/assets/empty-proj.xml")).read()
    return e.replace("<scripts></scripts></sprite>", "<scripts>" + "".join(scripts) + "</scripts></sprite>")

def key(name, *x): return '<script x="1" y="1">' + b("receiveKey", "<l><option>" + name + "</option></l>") + "".join(x) + "</script>"
def ask(t): return b("doAsk", l(t))
def answer(): return b("getLastAnswer")
class Command:
    """The program run on a project file (a document, or the scripts of one), on a terminal or into a pipe."""
    def __init__(self, doc, *args, mode="run", tty=False, rows=24):
        import fcntl, pty, termios
        self.mock = Mock()
        self.dir = tempfile.mkdtemp()
        self.file = os.path.join(self.dir, "p.xml")
        open(self.file, "w").write(doc)
        env = {k: v for k, v in os.environ.items() if "proxy" not in k.lower()}
        cmd = [NB, mode, self.file, *args] + (["--server", self.mock.url] if mode == "run" else [])
        self.raw = b""
        if tty:
            self.fd, s = pty.openpty()
            fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", rows, 80, 0, 0))
            self.before = termios.tcgetattr(s)
            self.slave = s
            self.p = subprocess.Popen(cmd, env=dict(env, TERM="xterm"), stdin=s, stdout=s, stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=lambda: fcntl.ioctl(0, termios.TIOCSCTTY, 0))
        else:
            self.p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            self.fd = self.p.stdout.fileno()
        os.set_blocking(self.fd, False)
    def pull(self):
        while True:
            try: d = os.read(self.fd, 65536)
            except (BlockingIOError, OSError): return
            if not d: return
            self.raw += d
    def text(self):
        """What scrolls by: the status line and all control sequences left out."""
        import re
        t = self.raw.decode(errors="replace")
        return re.sub(r"\x1b\[[0-9;?]*[@-~]", "", re.sub(r"\x1b7.*?\x1b8", "", t, flags=re.S)).replace("\r", "")
    def status(self):
        import re
        m = re.findall(r"\x1b7(.*?)\x1b8", self.raw.decode(errors="replace"), flags=re.S)
        return re.sub(r"\x1b\[[0-9;?]*[@-~]", "", m[-1]) if m else ""
    def said(self): return [x.split(" > ", 1)[1].strip('"') for x in self.text().splitlines() if " > " in x and x.startswith("Entity")]
    def until(self, f, seconds=15):
        end = time.time() + seconds
        while time.time() < end:
            self.pull()
            if f(self): return True
            time.sleep(0.01)
        return False
    def type(self, t):
        os.write(self.fd, t if isinstance(t, bytes) else t.encode()); time.sleep(0.15); self.pull()
    def close(self):
        self.p.kill(); self.p.wait(); os.remove(self.file); os.rmdir(self.dir)
def room(**roles):
    """A document of several roles: name -> scripts."""
    e = project()
    a, z = e.index("<role"), e.rindex("</room>")
    r = "".join(e[a:z].replace('"myRole"', f'"{n}"').replace("<scripts></scripts></sprite>", "<scripts>" + s + "</scripts></sprite>") for n, s in roles.items())
    return '<room name="demo">' + r + "</room>"
