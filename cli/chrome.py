#!/usr/bin/python3 -IS
"""A stand-in for Chrome that speaks just enough of the DevTools protocol.

It is started by smd through $CHROME. $CHROME_PLAN names a JSON file:
  {"fail": [["<step>", n, "<how>"], ...], "log": path, "gate": socket path}
step: a stage (launch, accept, handshake) or a method; n: the how-many-th occurrence;
how: error (protocol error), close (the connection), die, silent, garbage, text (errorText),
badpdf (not base64), slow. A "PDF" is a function of what the page showed when it finished
loading, so that the output file tells what the browser was shown.
"""
import base64, hashlib, json, os, select, socket, struct, sys, time, urllib.parse

PLAN = json.load(open(os.environ["CHROME_PLAN"]))
LOG = PLAN.get("log")
counts = {}


def log(*a):
    if LOG:
        with open(LOG, "a") as f:
            f.write(json.dumps(a) + "\n")


def gate(what):
    """Asks the scheduler for permission, when there is one."""
    p = PLAN.get("gate")
    if not p:
        return
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.connect(p)
    s.sendall((PLAN["gate_id"] + " " + what + "\n").encode())
    s.recv(16)
    s.close()


def how(step):
    counts[step] = counts.get(step, 0) + 1
    log("step", step)
    for s, n, h in PLAN.get("fail", []):
        if s == step and n == counts[step]:
            log("fail", step, h)
            if h == "die":
                os._exit(3)
            return h
    return None


def pdf_of(html):
    return b"%PDF-1.4\n\x00\xff\r\n" + html + b"\n%%EOF\x80" + hashlib.sha256(html).digest()


class Closed(Exception):
    pass


class Server:
    def __init__(self, c):
        self.c = c
        self.buf = b""
        self.timers = []
        self.tabs = {}  # session -> target
        self.page = {}  # target -> bytes shown
        self.url = {}
        self.loading = {}
        self.targets = ["T0"]

    # websocket
    def handshake(self):
        while b"\r\n\r\n" not in self.buf:
            d = self.c.recv(4096)
            if not d:
                raise Closed
            self.buf += d
        head, self.buf = self.buf.split(b"\r\n\r\n", 1)
        h = how("handshake")
        if h == "close":
            raise Closed
        if h == "error":
            self.c.sendall(b"HTTP/1.1 500 no\r\nContent-Length: 0\r\n\r\n")
            raise Closed
        key = [l.split(b":", 1)[1].strip() for l in head.split(b"\r\n") if l.lower().startswith(b"sec-websocket-key:")][0]
        acc = base64.b64encode(hashlib.sha1(key + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
        self.c.sendall(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acc + b"\r\n\r\n")

    def send_raw(self, data, op=1):
        n = len(data)
        if n < 126:
            head = struct.pack("!BB", 0x80 | op, n)
        elif n < 65536:
            head = struct.pack("!BBH", 0x80 | op, 126, n)
        else:
            head = struct.pack("!BBQ", 0x80 | op, 127, n)
        self.c.sendall(head + data)

    def send(self, obj):
        self.send_raw(json.dumps(obj).encode())

    def frames(self):
        while True:
            b = self.buf
            if len(b) < 2:
                return
            op, n, at = b[0] & 15, b[1] & 127, 2
            if n == 126:
                if len(b) < 4:
                    return
                n, at = struct.unpack("!H", b[2:4])[0], 4
            elif n == 127:
                if len(b) < 10:
                    return
                n, at = struct.unpack("!Q", b[2:10])[0], 10
            if len(b) < at + 4 + n:
                return
            mask = b[at : at + 4]
            data = bytes(x ^ mask[i & 3] for i, x in enumerate(b[at + 4 : at + 4 + n]))
            self.buf = b[at + 4 + n :]
            yield op, data

    # protocol
    def event(self, method, params):
        self.send({"method": method, "params": params})

    def to_session(self, session, obj):
        self.event("Target.receivedMessageFromTarget", {"sessionId": session, "targetId": self.tabs[session], "message": json.dumps(obj)})

    def created(self, t):
        self.event("Target.targetCreated", {"targetInfo": {"targetId": t, "type": "page", "title": "", "url": "about:blank", "attached": False, "canAccessOpener": False, "browserContextId": "C"}})

    def answer(self, reply, i, h, result):
        if h == "error":
            return reply({"id": i, "error": {"code": -32000, "message": "failed"}})
        if h == "close":
            raise Closed
        if h == "silent":
            return None
        if h == "garbage":
            return self.send_raw(b"{not json")
        return reply({"id": i, "result": result})

    def browser(self, m):
        i, method, p = m["id"], m["method"], m.get("params") or {}
        if method == "Target.sendMessageToTarget":
            h = how(method)
            self.answer(self.send, i, h, {})
            if h is None:
                self.session(p["sessionId"], json.loads(p["message"]))
            return
        h = how(method)
        if method == "Target.setDiscoverTargets":
            self.created("T0")
            self.answer(self.send, i, h, {})
        elif method == "Target.createTarget":
            t = "T%d" % len(self.targets)
            self.targets.append(t)
            if h is None or h == "silent":
                self.created(t)
            self.answer(self.send, i, h, {"targetId": t})
        elif method == "Target.attachToTarget":
            s = "S" + p["targetId"]
            self.tabs[s] = p["targetId"]
            self.answer(self.send, i, h, {"sessionId": s})
        elif method == "Browser.close":
            self.answer(self.send, i, h, {})
            raise Closed
        else:
            self.answer(self.send, i, h, {})

    def session(self, s, m):
        i, method, p = m["id"], m["method"], m.get("params") or {}
        reply = lambda o: self.to_session(s, o)
        if self.tabs.get(s) == "T0":
            # the tab Chrome starts with, of no interest to smd
            if method == "Page.printToPDF":
                return reply({"id": i, "result": {"data": base64.b64encode(b"%PDF blank").decode()}})
            return reply({"id": i, "result": {"frameId": "F", "identifier": "0"}})
        t = self.tabs[s]
        h = how(method)
        if method == "Page.navigate":
            url = p["url"]
            path = self.path_of(url)
            gate("navigate")
            try:
                early = open(path, "rb").read()
                log("navigate", url, base64.b64encode(early).decode())
            except OSError as e:
                log("navigate", url, None)
                return self.answer(reply, i, h, {"frameId": "F", "errorText": "net::ERR_FILE_NOT_FOUND"})
            if h == "text":
                return reply({"id": i, "result": {"frameId": "F", "errorText": "net::ERR_ACCESS_DENIED"}})
            self.answer(reply, i, h, {"frameId": "F", "loaderId": "L"})
            if h is None:
                self.to_session(s, self.life("init"))
                self.loading[s] = path
                self.timers.append((time.monotonic() + 0.06, s))
        elif method == "Page.printToPDF":
            self.loading.pop(s, None)
            if h == "badpdf":
                return reply({"id": i, "result": {"data": "!!!! not base64 !!!!"}})
            gate("print")
            data = pdf_of(self.page.get(t, b"nothing"))
            if "pdf" in PLAN:
                data = base64.b64decode(PLAN["pdf"])
            log("print", t, json.dumps(p, sort_keys=True))
            self.answer(reply, i, h, {"data": base64.b64encode(data).decode()})
        elif method == "Page.loadEventFired":
            pass
        else:
            self.answer(reply, i, h, {"frameId": "F", "identifier": "0"})

    @staticmethod
    def path_of(url):
        u = urllib.parse.urlsplit(url)
        return os.fsencode(urllib.parse.unquote_to_bytes(u.path).decode("utf-8", "surrogateescape"))

    def life(self, name):
        return {"method": "Page.lifecycleEvent", "params": {"frameId": "F", "loaderId": "L", "name": name, "timestamp": 1.0}}

    def loaded(self, s):
        if s not in self.loading:
            return
        t = self.tabs[s]
        if t not in self.page:
            h = how("load")
            if h == "close":
                raise Closed
            if h == "silent":
                return
            # The browser may read the file as late as this
            gate("load")
            try:
                self.page[t] = open(self.loading[s], "rb").read()
            except OSError:
                self.page[t] = b"the file was gone"
            log("loaded", base64.b64encode(self.page[t]).decode())
        # Repeated until somebody prints, as smd may not be waiting yet
        self.to_session(s, self.life("networkAlmostIdle"))
        self.timers.append((time.monotonic() + 0.1, s))

    def run(self):
        self.handshake()
        while True:
            now = time.monotonic()
            due = [s for t, s in self.timers if t <= now]
            self.timers = [(t, s) for t, s in self.timers if t > now]
            for s in due:
                self.loaded(s)
            wait = min([t for t, _ in self.timers], default=now + 30) - now
            r, _, _ = select.select([self.c], [], [], max(0, wait))
            if r:
                d = self.c.recv(1 << 16)
                if not d:
                    raise Closed
                self.buf += d
                for op, data in self.frames():
                    if op == 8:
                        raise Closed
                    if op == 9:
                        self.send_raw(data, 10)
                    if op == 1:
                        self.browser(json.loads(data))


def main():
    # (a supervisor that outlives smd would be a leak: never run for long)
    import signal
    signal.alarm(120)
    h = how("launch")
    if h == "error":
        sys.stderr.write("[1:1:ERROR:socket.cc] bind() returned an error: Address already in use\n")
        sys.stderr.flush()
        time.sleep(0.02)
        return
    if h == "root":
        sys.stderr.write("Running as root without --no-sandbox is not supported\n")
        sys.stderr.flush()
        time.sleep(5)
        return
    l = socket.socket()
    l.bind(("127.0.0.1", 0))
    l.listen(4)
    port = l.getsockname()[1]
    if how("accept") == "close":
        l.close()
    sys.stderr.write("\nDevTools listening on ws://127.0.0.1:%d/devtools/browser/x\n" % port)
    sys.stderr.flush()
    c, _ = l.accept()
    try:
        Server(c).run()
    except (Closed, OSError):
        pass
    c.close()


main()
