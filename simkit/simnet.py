"""Network seam: HTTP below `requests`.

`requests` itself (sessions, multipart encoding, retries, status handling, body
reading) runs for real; what is replaced is the transport underneath it
(HTTPAdapter.send).  Every exchange is a scheduling point with seeded latency
and at most one injected fault.
"""
import io
import re

import requests
import requests.adapters
import urllib3
import urllib3.response

from . import kernel

_real_send = requests.adapters.HTTPAdapter.send


def _body_bytes(request):
    b = request.body
    if b is None:
        return b""
    if isinstance(b, str):
        return b.encode()
    if isinstance(b, (bytes, bytearray)):
        return bytes(b)
    if hasattr(b, "read"):
        return b.read()
    return b"".join(b)


def parse_multipart(ctype, body):
    """Returns {name: (filename, bytes)} of a multipart/form-data body."""
    m = re.search(r'boundary="?([^";]+)"?', ctype or "")
    if not m:
        return None
    sep = b"--" + m.group(1).encode()
    out = {}
    parts = body.split(sep)
    if len(parts) < 2 or not parts[-1].startswith(b"--"):
        return None  # incomplete
    for p in parts[1:-1]:
        p = p[2:] if p.startswith(b"\r\n") else p
        head, _, data = p.partition(b"\r\n\r\n")
        if data.endswith(b"\r\n"):
            data = data[:-2]
        mm = re.search(rb'name="([^"]*)"', head)
        fm = re.search(rb'filename="([^"]*)"', head)
        out[mm.group(1).decode()] = (fm.group(1).decode() if fm else None, data)
    return out


class Net:
    """One simulated network with one HTTP server behind it.

    `server.handle(method, path, headers, body, complete)` returns
    (status, body). `plan` maps an exchange number to a fault.
    """

    def __init__(self, sim, server, plan, latency=None, outage=None):
        self.sim = sim
        self.server = server
        self.plan = {int(k): v for k, v in plan}
        self.latency = latency or [0.01]
        self.outages = outage or []  # [start, end] in virtual seconds
        self.n = 0
        self.attempts = []  # (time, method, path, outcome)
        self.last_fault_time = 0.0

    def delay(self):
        return self.latency[self.n % len(self.latency)]

    def _err(self, kind, request):
        if kind == "timeout":
            return requests.exceptions.ConnectTimeout("simulated", request=request)
        return requests.exceptions.ConnectionError(
            urllib3.exceptions.ProtocolError("simulated %s" % kind),
            request=request)

    def send(self, request, timeout=None):
        sim = self.sim
        self.n += 1
        n = self.n
        path = re.sub(r"^https?://[^/]+", "", request.url)
        host = re.match(r"^https?://([^/]+)", request.url).group(1)
        body = _body_bytes(request)
        fault = self.plan.get(n)
        kind = fault[0] if fault else None
        for a, b in self.outages:
            if a <= sim.now < b:
                kind = "refused"
                self.last_fault_time = max(self.last_fault_time, b)
                sim.count("fault:net-outage")
                break
        start = sim.now

        def done(outcome):
            self.attempts.append((start, sim.now, request.method, path, outcome))
            sim.log("http", request.method, path.split(".")[-1][-40:], len(body),
                    outcome)

        if kind:
            self.last_fault_time = max(self.last_fault_time, sim.now)
            sim.count("fault:net-" + kind)
        if kind in ("refused", "timeout"):
            sim.sleep(self.delay())
            done(kind)
            raise self._err(kind, request)
        sim.sleep(self.delay() / 2)
        if kind == "reset_send":
            # The peer saw only part of the request body.
            part = body[:int(len(body) * fault[1])]
            self.server.handle(request.method, host, path, request.headers, part,
                               False)
            done(kind)
            raise self._err(kind, request)
        if kind == "http_error":
            status, data = int(fault[1]), b"<html>error</html>"
        else:
            status, data = self.server.handle(request.method, host, path,
                                              request.headers, body, True)
        if kind == "slow":
            sim.sleep(float(fault[1]))
        else:
            sim.sleep(self.delay() / 2)
        if kind == "reset_recv":
            done(kind)
            raise self._err(kind, request)
        full = len(data)
        if kind == "short_body" and full:
            data = data[:int(full * fault[1])]
        done(status if kind is None else "%s/%s" % (status, kind))
        raw = urllib3.response.HTTPResponse(
            body=io.BytesIO(data), headers={"content-length": str(full)},
            status=status, preload_content=False, enforce_content_length=True,
            request_method=request.method)
        return status, raw


def sim_send(self, request, stream=False, timeout=None, verify=True, cert=None,
             proxies=None):
    sim = kernel.current_sim()
    net = getattr(sim, "net", None) if sim is not None else None
    if net is None:
        raise requests.exceptions.ConnectionError(
            "no simulated network in this run", request=request)
    _, raw = net.send(request, timeout)
    return self.build_response(request, raw)


def install():
    requests.adapters.HTTPAdapter.send = sim_send
