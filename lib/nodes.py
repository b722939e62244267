"""Drives swarm nodes (rem/ binary) over stdin/stdout from asyncio."""
import asyncio
import json
import os
import socket
import time


class Dead(Exception):
    pass


def free_port():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


class Node:
    def __init__(self, name):
        self.name = name
        self.next = 0
        self.waiting = {}
        self.history = []
        self.peer = None
        self.addr = None
        self.port = None

    @classmethod
    async def start(cls, binary, name, boot=True):
        self = cls(name)
        self.proc = await asyncio.create_subprocess_exec(
            binary, stdin=asyncio.subprocess.PIPE, stdout=asyncio.subprocess.PIPE,
            stderr=asyncio.subprocess.DEVNULL, limit=1 << 24)
        self.reader = asyncio.create_task(self._read())
        if boot:
            await self.boot()
        return self

    async def boot(self):
        for _ in range(20):
            self.port = free_port()
            res = await self("boot", port=self.port)
            if "ok" in res:
                self.peer = res["ok"]
                self.addr = f"/ip4/127.0.0.1/udp/{self.port}/quic-v1"
                return
        raise Dead(f"{self.name} could not bootstrap: {res}")

    async def _read(self):
        while True:
            line = await self.proc.stdout.readline()
            if not line:
                break
            msg = json.loads(line)
            fut = self.waiting.pop(msg.pop("r"), None)
            if fut and not fut.done():
                fut.set_result(msg)
        for fut in self.waiting.values():
            if not fut.done():
                fut.set_result({"dead": self.name})
        self.waiting.clear()

    def send(self, c, **kw):
        """Issues a command at once, returning the future of its answer."""
        self.next += 1
        r = self.next
        fut = asyncio.get_running_loop().create_future()
        self.waiting[r] = fut
        self.proc.stdin.write((json.dumps({"c": c, "r": r, **kw}) + "\n").encode())
        entry = {"n": self.name, "c": c, **kw, "t0": time.monotonic()}
        self.history.append(entry)

        def done(f):
            if not f.cancelled():
                entry["t1"] = time.monotonic()
                entry["res"] = f.result()
        fut.add_done_callback(done)
        return fut

    async def __call__(self, c, timeout=60, **kw):
        fut = self.send(c, **kw)
        try:
            return await asyncio.wait_for(fut, timeout)
        except asyncio.TimeoutError:
            return {"hang": timeout}

    async def close(self):
        try:
            self.proc.kill()
        except ProcessLookupError:
            pass
        await self.proc.wait()
        await self.reader


async def connect(a, b, tries=50):
    """Dials b from a, until a request over the connection works."""
    res = await a("dial", peer=b.peer, addr=b.addr, always=True)
    return res
