"""The simulated network: TCP byte streams to HTTP servers that live in the kernel.

A connection fault says what the peer or the path does: nothing arrives after
byte n (stall), the stream ends after byte n (truncate), it is reset after byte
n, the answer is another status or body, segments are cut and delayed.
"""
import base64
import errno
import json
import random
from urllib.parse import urlsplit, parse_qs

from . import asm, specs

HOSTS = {"algod.sim": "10.1.0.1", "testnet-api.algonode.cloud": "10.1.0.2", "github.com": "10.1.0.3",
         "raw.githubusercontent.com": "10.1.0.4", "specs.sim": "10.1.0.5", "localhost": "127.0.0.1"}
BY_IP = {v: k for k, v in HOSTS.items()}
LATENCY = 0.02


def resolve(host):
    if host in BY_IP:
        return host
    if host in HOSTS:
        return HOSTS[host]
    from .kernel import NetErr
    raise NetErr("gaierror")


class Conn:
    def __init__(self, sim, p, host, port, fault):
        self.sim, self.p, self.fault = sim, p, fault
        self.host = BY_IP.get(host, host)
        self.port = port
        if self.host not in HOSTS:
            raise OSError(errno.ECONNREFUSED, "Connection refused")
        self.inbuf = b""
        self.events = []           # (time, bytes | "FIN" | "RST")
        self.closed = False
        self.answered = False
        self.complete = False      # the whole correct answer was delivered
        if fault.get("kind") == "stall" and fault.get("at", 0) < 0:
            sim.fire("net:stall", p)
            self.answered = True   # accepts, never answers

    # -------------------------------------------------------------- client side
    def send(self, data):
        self.inbuf += data
        if self.fault.get("kind") == "reset_early":
            self.sim.fire("net:reset", self.p)
            raise OSError(errno.ECONNRESET, "Connection reset by peer")
        if not self.answered:
            self._try()
        return len(data)

    def readable(self):
        return bool(self.events) and self.events[0][0] <= self.sim.now + 1e-12

    def next_event(self, now):
        if self.closed or not self.events:
            return None
        return self.events[0][0]

    def recv(self, n):
        if not self.readable():
            return None
        t, d = self.events[0]
        if d == "FIN":
            return b""
        if d == "RST":
            raise OSError(errno.ECONNRESET, "Connection reset by peer")
        out, rest = d[:n], d[n:]
        if rest:
            self.events[0] = (t, rest)
        else:
            self.events.pop(0)
        if self.complete_at == len(self.events):
            self.complete = True
        return out

    complete_at = -1

    # -------------------------------------------------------------- server side
    def _try(self):
        head, sep, body = self.inbuf.partition(b"\r\n\r\n")
        if not sep:
            return
        lines = head.decode("latin-1").split("\r\n")
        method, target, _ = lines[0].split(" ", 2)
        hdr = {}
        for ln in lines[1:]:
            k, _, v = ln.partition(":")
            hdr[k.strip().lower()] = v.strip()
        need = int(hdr.get("content-length", 0))
        if len(body) < need:
            return
        self.answered = True
        status, headers, out, rec = handle(self.sim, self.host, self.port, method, target, hdr, body[:need], self.fault)
        self._respond(status, headers, out, rec)

    def _respond(self, status, headers, body, rec):
        sim, f = self.sim, self.fault
        k = f.get("kind")
        headers = dict(headers)
        if k == "nolength" or f.get("nolength"):
            headers.pop("Content-Length", None)
        elif f.get("chunked"):
            headers["Transfer-Encoding"] = "chunked"
            c = max(1, f["chunked"])
            body = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + c]), body[i:i + c]) for i in range(0, len(body), c)) + b"0\r\n\r\n"
        else:
            headers["Content-Length"] = str(len(body))
        headers["Connection"] = "close"
        raw = ("HTTP/1.1 %s\r\n" % status).encode() + b"".join(
            ("%s: %s\r\n" % kv).encode() for kv in headers.items()) + b"\r\n"
        hl = len(raw)
        raw += body
        end = "FIN"
        cut = None
        if k in ("reset", "truncate", "stall"):
            at = f.get("at", 0)
            where = f.get("where", "body")
            # position by region so that a fault lands where it matters
            if where == "head":
                cut = at % max(1, hl)
            elif where == "edge":
                cut = hl
            elif where == "last":
                cut = len(raw) - 1
            else:
                cut = hl + at % max(1, len(body))
            end = {"reset": "RST", "truncate": "FIN", "stall": None}[k]
            sim.fire("net:" + k, self.p)
        send = raw if cut is None else raw[:cut]
        r = random.Random("net/%s/%s" % (f.get("seg", 0), len(raw)))
        segs = []
        if f.get("seg"):
            sim.fire("net:segmented", self.p)
            i = 0
            while i < len(send):
                n = r.randint(1, max(1, f["seg"]))
                segs.append(send[i:i + n])
                i += n
        elif send:
            segs = [send]
        t = sim.now + f.get("delay", LATENCY)
        if f.get("delay"):
            sim.fire("net:delay", self.p)
        for s in segs:
            self.events.append((t, s))
            t += f.get("gap", 0.0005)
        if end is not None:
            self.events.append((t, end))
            self.complete_at = 1 if cut is None else -1
        if rec is not None:
            rec["whole"] = cut is None
            sim.responses.append(rec)


def handle(sim, host, port, method, target, hdr, body, fault):
    """-> status line, headers, body, record of what was answered."""
    k = fault.get("kind")
    u = urlsplit(target)
    js = {"Content-Type": "application/json"}
    if k == "status":
        sim.fire("net:status:%d" % fault["code"], None)
        return "%d X" % fault["code"], js, fault.get("body", '{"message":"simulated failure"}').encode(), None
    if k == "html200":
        sim.fire("net:html200", None)
        return "200 OK", {"Content-Type": "text/html"}, b"<html><body>captive portal, sign in</body></html>", None
    if k == "empty200":
        sim.fire("net:empty200", None)
        return "200 OK", js, b"", None
    if host in ("algod.sim", "testnet-api.algonode.cloud", "localhost"):
        if method != "POST" or u.path != "/v2/teal/compile":
            return "404 Not Found", js, b'{"message":"Not Found"}', None
        want = sim.sc.get("token")
        if want and hdr.get("x-algo-api-token") != want:
            return "401 Unauthorized", js, b'{"message":"Invalid API Token"}', None
        teal = body.decode("utf-8", "surrogateescape")
        code, smap = asm.assemble(teal)
        out = {"hash": "SIM", "result": base64.b64encode(code).decode()}
        if parse_qs(u.query).get("sourcemap", [""])[0].lower() == "true":
            out["sourcemap"] = smap
        rec = {"teal": teal, "code": code, "map": smap}
        if k == "nomap":
            sim.fire("net:missing_field", None)
            out.pop("sourcemap", None)
            rec = None
        elif k == "noresult":
            sim.fire("net:missing_field", None)
            out.pop("result", None)
            rec = None
        elif k == "nullresult":
            sim.fire("net:bad_field", None)
            out["result"] = None
            rec = None
        elif k == "mapversion":
            sim.fire("net:bad_field", None)
            out["sourcemap"] = dict(smap, version=9)
            rec = None
        elif k == "badmap":
            sim.fire("net:bad_field", None)
            out["sourcemap"] = {"version": 3}
            rec = None
        return "200 OK", js, json.dumps(out).encode(), rec
    if host == "github.com":
        p = u.path.split("/")
        if len(p) > 5 and p[1:4] == ["algorand", "go-algorand", "raw"] and p[-1] == "langspec.json":
            branch = p[4]
            return ("302 Found", {"Location": "https://raw.githubusercontent.com/algorand/go-algorand/%s/data/transactions/logic/langspec.json" % branch},
                    b"", None)
        return "404 Not Found", {}, b"Not Found", None
    if host in ("raw.githubusercontent.com", "specs.sim"):
        parts = u.path.split("/")
        name = parts[3] if host.startswith("raw") and len(parts) > 3 else u.path.strip("/").replace(".json", "")
        spec = specs.get(name)
        if spec is None:
            return "404 Not Found", {}, b"404: Not Found", None
        b = json.dumps(spec).encode()
        if k == "notspec":
            sim.fire("net:bad_field", None)
            return "200 OK", js, fault.get("body", "{}").encode(), None
        return "200 OK", js, b, {"spec": name}
    return "404 Not Found", {}, b"", None
