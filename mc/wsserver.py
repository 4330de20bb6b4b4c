"""The far end of a real websocket over a virtual socket: RFC 6455 frames, permessage-deflate."""
import base64
import hashlib
import struct
import zlib

from . import agent, core


class WsServer(object):
    def __init__(self, env, conn, compress=True, no_context=False):
        self.env = env
        self.conn = conn
        self.pos = 0
        self.compress = compress
        self.no_context = no_context
        self.messages = []  # payloads of binary messages, inflated
        self.controls = []
        self._inflate = zlib.decompressobj(-15)
        self._deflate = zlib.compressobj(6, zlib.DEFLATED, -15)

    def handshake(self):
        """Answer the upgrade request."""
        head = bytes(self.conn.to_server)
        i = head.find(b"\r\n\r\n")
        if i < 0:
            raise core.Violation("no upgrade request: %r" % head[:300])
        lines = head[:i].split(b"\r\n")
        h = {}
        for line in lines[1:]:
            k, _, v = line.partition(b":")
            h[k.strip().lower()] = v.strip()
        self.request = lines[0]
        key = h[b"sec-websocket-key"]
        acc = base64.b64encode(hashlib.sha1(key + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
        r = (b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
             b"Sec-WebSocket-Accept: " + acc + b"\r\n")
        if self.compress:
            r += b"Sec-WebSocket-Extensions: permessage-deflate" + (
                b"; client_no_context_takeover" if self.no_context else b"") + b"\r\n"
        self.pos = i + 4
        self.conn.server_send(r + b"\r\n")

    def frame(self, opcode, data, rsv1=0):
        n = len(data)
        h = struct.pack("!B", 0x80 | (0x40 if rsv1 else 0) | opcode)
        if n < 126:
            h += struct.pack("!B", n)
        elif n < 65536:
            h += struct.pack("!BH", 126, n)
        else:
            h += struct.pack("!BQ", 127, n)
        self.conn.server_send(h + data)

    def send(self, data, deflate=False):
        if deflate:
            z = self._deflate.compress(data) + self._deflate.flush(zlib.Z_SYNC_FLUSH)
            self.frame(2, z[:-4], 1)
        else:
            self.frame(2, data)

    def packet(self, name, *fields, **kw):
        self.send(agent.benc([agent.P[name]] + list(fields)), **kw)

    def parse(self, final=True):
        """Read all the complete frames the agent has sent."""
        d = self.conn.to_server
        while True:
            p = self.pos
            if len(d) - p < 2:
                break
            b0, b1 = d[p], d[p + 1]
            n = b1 & 0x7F
            q = p + 2
            if n == 126:
                n, = struct.unpack("!H", bytes(d[q:q + 2]))
                q += 2
            elif n == 127:
                n, = struct.unpack("!Q", bytes(d[q:q + 8]))
                q += 8
            if len(d) < q + 4 + n:
                break
            if not b1 & 0x80:
                raise core.Violation("the agent sent an unmasked frame")
            mask = bytes(d[q:q + 4])
            q += 4
            payload = bytes(c ^ mask[i & 3] for i, c in enumerate(d[q:q + n]))
            self.pos = q + n
            self._frame(b0, payload)
        if final and self.pos != len(d):
            raise core.Violation("the agent sent an incomplete frame: %d bytes at %d of %d" % (
                len(d) - self.pos, self.pos, len(d)))

    def _frame(self, b0, payload):
        op = b0 & 15
        if not b0 & 0x80 or b0 & 0x30:
            raise core.Violation("the agent sent a bad frame header %#x" % b0)
        if op == 2:
            if b0 & 0x40:
                if not self.compress:
                    raise core.Violation("the agent sent a compressed frame without compression")
                try:
                    if self.no_context:
                        self._inflate = zlib.decompressobj(-15)
                    payload = self._inflate.decompress(payload + b"\x00\x00\xff\xff")
                except zlib.error as e:
                    raise core.Violation("the agent's messages can not be decompressed: %s" % e)
            try:
                v = agent.bdec(payload)
            except Exception:
                raise core.Violation("the agent sent a message that is not well formed: %r" % payload[:200])
            self.messages.append(v)
            core.S.obs("msg", v if len(payload) < 200 else len(payload))
        elif op in (8, 9, 10):
            self.controls.append((op, payload))
        else:
            raise core.Violation("the agent sent a frame with opcode %d" % op)
