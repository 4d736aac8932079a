"""Protocol violations by a connected client, with the reasons the standard allows for closing it."""
from . import wire as W, gen

MALF = {0x81, 0x82}


def raw(b0, body=b""):
    return W.frame(b0, body)


def utf(s):
    return W.utf(s)


def violations(v, cfg_alias=2, cfg_max=256):
    """[(name, make(r) -> bytes, allowed DISCONNECT reasons)]"""
    P = b"\0" if v == 5 else b""
    out = []

    def add(name, fn, rcs=MALF):
        out.append((name, fn, set(rcs)))
    ok = utf("a/b")
    add("connect twice", lambda r: W.encode({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": "zz%d" % r.randrange(99), "will": None,
                                             "props": [], "username": None, "password": None}, v), {0x82, 0x81})
    add("connack from client", lambda r: raw(0x20, b"\0\0" + P))
    add("suback from client", lambda r: raw(0x90, b"\0\1" + P + b"\0"))
    add("unsuback from client", lambda r: raw(0xb0, b"\0\1" + P + (b"\0" if v == 5 else b"")))
    add("pingresp from client", lambda r: raw(0xd0))
    add("packet type 0", lambda r: raw(r.randrange(16), r.randbytes(r.randrange(4))))
    if v == 4:
        add("packet type 15", lambda r: raw(0xf0, r.randbytes(r.randrange(3))))
    add("publish qos 3", lambda r: raw(0x36, ok + b"\0\1" + P + b"x"))
    add("publish id 0", lambda r: raw(r.choice([0x32, 0x34]), ok + b"\0\0" + P + b"x"))
    add("publish to wildcard", lambda r: raw(r.choice([0x30, 0x31]), utf(r.choice(["a/+", "#", "+", "a/#", "a+b"])) + P + b"x"), MALF | {0x90})
    add("publish without topic", lambda r: raw(0x30, b"\0\0" + P + b"x"), MALF | {0x90})
    add("publish cut in topic", lambda r: raw(0x30, b"\0\x09ab"))
    add("publish bad utf-8", lambda r: raw(0x30, W.u16(2) + r.choice([b"\xff\xfe", b"\xc0\x80", b"a\0", b"\xed\xa0"]) + P + b"x"), MALF | {0x90})
    add("publish dup qos 0", lambda r: raw(0x38, ok + P + b"x"))
    add("subscribe flags", lambda r: raw(r.choice([0x80, 0x83, 0x8a]), b"\0\1" + P + ok + b"\0"))
    add("subscribe nothing", lambda r: raw(0x82, b"\0\1" + P))
    add("subscribe qos 3", lambda r: raw(0x82, b"\0\1" + P + ok + b"\3"))
    add("subscribe id 0", lambda r: raw(0x82, b"\0\0" + P + ok + b"\0"))
    add("subscribe bad filter", lambda r: raw(0x82, b"\0\1" + P + utf(r.choice(["a#", "#/a", "a/#/b", "+a", "a/b+", "++", "##", "a/#b"])) + b"\0"),
        MALF | {0x8F})
    add("unsubscribe nothing", lambda r: raw(0xa2, b"\0\1" + P))
    add("unsubscribe flags", lambda r: raw(0xa0, b"\0\1" + P + ok))
    add("pubrel flags", lambda r: raw(0x60, b"\0\1"))
    add("puback flags", lambda r: raw(0x42, b"\0\1"))
    add("puback empty", lambda r: raw(0x40))
    add("pingreq flags", lambda r: raw(0xc1))
    add("disconnect flags", lambda r: raw(0xe3))
    add("remaining length of 5 bytes", lambda r: b"\x30\xff\xff\xff\xff\x01")
    if v == 5:
        add("topic alias 0", lambda r: raw(0x30, ok + b"\3\x23\0\0x"), {0x94, 0x82})
        add("topic alias too big", lambda r: raw(0x30, ok + b"\3\x23" + W.u16(cfg_alias + r.choice([1, 1, 2, 60000])) + b"x"), {0x94, 0x82})
        add("packet too large", lambda r: raw(0x30, ok + P + b"y" * (cfg_max + r.randrange(3))), {0x95})
        add("share name bad", lambda r: raw(0x82, b"\0\1\0" + utf(r.choice(["$share/+/a", "$share//a", "$share/g", "$share/g/", "$share/g#/a"])) + b"\0"),
            MALF | {0x8F})
        add("retain handling 3", lambda r: raw(0x82, b"\0\1\0" + ok + b"\x30"))
        add("subscribe reserved bits", lambda r: raw(0x82, b"\0\1\0" + ok + r.choice([b"\x40", b"\x80"])))
        add("property twice", lambda r: raw(0x30, ok + b"\4\1\0\1\0x"))
        add("property unknown", lambda r: raw(0x30, ok + b"\2\x7f\0x"))
        add("property misplaced", lambda r: raw(0x30, ok + b"\3\x21\0\1x"))
        add("properties overrun", lambda r: raw(0x30, ok + b"\x20\1\0"))
        add("puback reason", lambda r: raw(0x40, b"\0\1\x7b"))
        add("disconnect reason", lambda r: raw(0xe0, b"\x77"))
        add("auth out of the blue", lambda r: raw(0xf0, b"\0\0"))
    return out


def first_packets(r):
    """connections that do not even begin properly: [(name, bytes)]; none of them may be accepted."""
    c5 = b"\0\4MQTT\5"
    c4 = b"\0\4MQTT\4"
    return [
        ("publish first", raw(0x30, utf("a") + b"x")), ("pingreq first", raw(0xc0)), ("subscribe first", raw(0x82, b"\0\1" + utf("a") + b"\0")),
        ("disconnect first", raw(0xe0)), ("random", r.randbytes(r.randrange(1, 40))), ("zeros", b"\0" * r.randrange(1, 20)),
        ("connect flag reserved 5", raw(0x10, c5 + b"\3\0\0\0" + utf("x1"))), ("connect flag reserved 4", raw(0x10, c4 + b"\3\0\0" + utf("x1"))),
        ("will qos 3", raw(0x10, c5 + b"\x1e\0\0\0" + utf("x1") + b"\0" + utf("a") + utf("w"))),
        ("will flag off, qos on", raw(0x10, c4 + b"\x0a\0\0" + utf("x1"))),
        ("password without user 4", raw(0x10, c4 + b"\x42\0\0" + utf("x1") + utf("p"))),
        ("protocol name", raw(0x10, b"\0\4MQXX\5\2\0\0\0" + utf("x1"))), ("connect flags 4", raw(0x11, c4 + b"\2\0\0" + utf("x1"))),
        ("cut connect", raw(0x10, c5 + b"\2\0")), ("connect trailing", raw(0x10, c4 + b"\2\0\0" + utf("x1") + b"zz")),
        ("property twice", raw(0x10, c5 + b"\2\0\0\6\x21\0\1\x21\0\1" + utf("x1"))),
        ("maximum packet size 0", raw(0x10, c5 + b"\2\0\0\5\x27\0\0\0\0" + utf("x1"))),
        ("will topic wildcard", raw(0x10, c5 + b"\6\0\0\0" + utf("x1") + b"\0" + utf("a/+") + utf("w"))),
        ("http", b"GET / HTTP/1.0\r\nHost: x\r\n\r\n"), ("tls hello", b"\x16\x03\x01\x00\x05hello"),
    ]
