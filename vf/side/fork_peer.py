#!/opt/venv/bin/python
# External codec used by the C16 check: its directory says the mode.
# It answers every message with what it received (hex) plus padding of the
# size the message asks for in its x-reply field.
import os
import struct
import sys

inp, out = sys.stdin.buffer, sys.stdout.buffer
binary = "/binary/" in os.path.abspath(sys.argv[0])
while True:
    msg = b""
    size = 0
    while True:
        line = inp.readline()
        if not line:
            sys.exit(0)
        msg += line
        if line.startswith(b"x-reply: "):
            size = int(line.split(b" ")[1])
        if line.strip() == b"":
            break
    if size < 0:
        data = b""
    elif binary:
        data = msg + b"\n\n\0" * (size // 3) + b"\n" * (size % 3)
    else:
        data = msg.hex().encode() + b"\n" + b"y" * (size % 100) + b"z\n" + (b"w" * 99 + b"\n") * (size // 100)
    if binary:
        out.write(struct.pack("q", len(data)) + data)
    else:
        out.write(data + b"\n")
    out.flush()
