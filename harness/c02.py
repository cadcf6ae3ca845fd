"""C02 a password proof is accepted iff it fits this connection's nonce and secret"""
import hashlib
import os
import random
import secrets

from harness.case import Case
from harness.world import World, check, fail
from harness.app import RawHub, Users
from harness.proto import *

CASES = []
META = {
    "quick_s": 110, "thorough_s": 450,
    "bounds": "passwords: some plain ones, one whose SHA1 and double SHA1 begin/end with zero octets, a non-ASCII one; every nonce the server can draw (each of its random characters is symbolic); proofs of 0, 19, 20, 21 octets that "
              "differ from a correct one by an arbitrary 20-octet mask; accounts without / with current / secondary / both / unusable "
              "secrets; the four routes (optimistic handshake, auth switch, COM_CHANGE_USER reusing the nonce or with auth switch); "
              "proofs made for the nonce of another connection or with another account's password; clear passwords of up to 4 arbitrary "
              "characters or opaque of up to 254 (70000 after a switch or with a length-encoded length) octets; arbitrary answers to the no-login plugin",
    "outside": "Kerberos plugin (gssapi is not installed); accounts with only a secondary password and an empty proof",
    "assumptions": ["sha1 is free of collisions among the inputs hashed in one run (uninterpreted function with injectivity)"],
}


def draws(P, log):
    """the random source of nonces: every character symbolic"""
    from harness.world import World
    count = [0]

    def choice(self, seq):
        vals = [x if isinstance(x, int) else ord(x) for x in seq]
        rs = []
        for v in sorted(set(vals)):
            if rs and rs[-1][1] == v - 1:
                rs[-1][1] = v
            else:
                rs.append([v, v])
        k = count[0]
        count[0] += 1
        s = P.str("rnd%d" % k, 1, ranges=tuple(tuple(r) for r in rs), default=chr(vals[(7 * k + 3 * (k // 20)) % len(vals)]))
        log.append(s)
        return s if isinstance(seq, str) else ord(s)
    return choice


def draw_bytes(P, log):
    """the same for octets drawn in bulk"""
    count = [0]

    def randbytes(self, n):
        count[0] += 1
        return P.bytes("rb%d" % count[0], n, [(37 * k + 11 * count[0]) % 256 for k in range(n)])
    return randbytes


def plain_choices(self, seq, weights=None, *, cum_weights=None, k=1):
    return [self.choice(seq) for _ in range(k)]


class Rand:
    """symbolic random source while a world exists"""

    def __init__(self, P, w, bulk=True):
        self.log = []
        new = {"choice": draws(P, self.log), "choices": plain_choices}
        if bulk:
            new["randbytes"] = draw_bytes(P, self.log)
        self.saved = {k: random.SystemRandom.__dict__.get(k) for k in new}
        self.secrets = secrets.choice
        for k, f in new.items():
            setattr(random.SystemRandom, k, f)
        secrets.choice = random.SystemRandom().choice
        n = [0]
        det = os.urandom

        def urandom(k):
            n[0] += 1
            d = det(k)
            return P.bytes("u%d" % n[0], k, [x for x in d]) if k <= 64 else d
        os.urandom = urandom

    def close(self):
        secrets.choice = self.secrets
        for k, f in self.saved.items():
            if f is None:
                delattr(random.SystemRandom, k)
            else:
                setattr(random.SystemRandom, k, f)


class sources:
    def __init__(self, P, w, bulk=True):
        self.P, self.w, self.bulk = P, w, bulk

    def __enter__(self):
        self.r = Rand(self.P, self.w, self.bulk)
        return self.r

    def __exit__(self, *a):
        self.r.close()


def sane_nonce(n, what="nonce"):
    check(len(n) == 20, what + " is not 20 octets", len(n))
    check(n.find(b"\x00") == -1, what + " contains NUL")


def xor(a, b):
    return bytes([x ^ y for x, y in zip(a, b)])


SECRETS = {"none": ("", None), "current": ("pw1", None), "both": ("pw1", "pw2"), "old": (None, "pw2"),
           "garbage": ("!zz", None)}


# passwords whose (double) SHA1 starts or ends with zero octets
EDGE = {"plain": "pw1", "zeros": "3165357", "unicode": "p\u00e4ss \U0001f600"}


def stored(x):
    if x and x[0] == "!":
        return x[1:]
    return hashlib.sha1(hashlib.sha1(x.encode()).digest()).hexdigest() if x else x


def answer(P, c, w, route, proof, caps):
    """send the proof along the route; proof(nonce) -> octets. Returns the final response"""
    other = b"mysql_clear_password"
    if route in ("handshake", "handshake-switch"):
        g = c.read_greeting()
        c.caps = caps
        check(g.plugin == b"mysql_native_password", "plugin of the greeting", g.plugin)
        check(len(g.auth) == 21 and g.auth[20] == 0, "nonce is not terminated")
        sane_nonce(c.nonce)
        if route == "handshake":
            c.send(c.response41(b"u", proof(c.nonce), caps), seq=1)
            return c.auth_result()
        c.send(c.response41(b"u", b"whatever", caps, plugin=other), seq=1)
    else:
        r = c.login(b"g", caps=caps)
        check(r.kind == "ok", "login", r)
        sane_nonce(c.nonce)
        if route == "change":
            c.send_command(c.c_change_user(b"u", proof(c.nonce)))
            return c.auth_result()
        c.send_command(c.c_change_user(b"u", b"whatever", plugin=other))
    r = c.auth_result()
    check(r.kind == "switch" and r.plugin == b"mysql_native_password", "auth switch request", r)
    check(len(r.data) == 21 and r.data[20] == 0, "nonce of the auth switch is not terminated", r.data)
    nonce = r.data[:20]
    sane_nonce(nonce, "nonce of the auth switch")
    c.send(proof(nonce), seq=c.seq)
    return c.auth_result()


ROUTES = ["handshake", "handshake-switch", "change", "change-switch"]


def served(c, hub, w, r, want_user, msg):
    """accepted: a query works and runs under the user; else ERR and nothing works"""
    s = hub.sessions[-1]
    if r.kind == "ok":
        check(c.query(b"SELECT 1").kind == "ok", "accepted client is not served")
        check(s.username == want_user, "user of the session", s.username)
        return True
    check(r.kind == "err", "response to the proof", r)
    check(c.peer.closed, "refused client stays connected")
    check(s.username in (None, "g"), "user of the session", s.username)
    return False


def native_case(route):
    return lambda P: native_run(P, route)


def native_run(P, route):
    from mysql_mimic.auth import User, NativePasswordAuthPlugin
    acct = P.choice("account", list(SECRETS), 2)
    cur, old = SECRETS[acct]
    pw1 = EDGE[P.choice("edge", list(EDGE))] if acct == "both" else "pw1"
    cur = pw1 if cur == "pw1" else cur
    caps = BASE | DEPRECATE_EOF | (LENENC_AUTH if route == "handshake" and P.flag("lenenc") else 0)
    users = Users({"u": User("u", stored(cur), "mysql_native_password", stored(old)), "g": User("g", "", "mysql_native_password")})
    hub = RawHub()
    used = P.choice("password", [pw1, "pw2"])
    n = P.choice("len", [20, 0, 19, 21])
    # the exact proof for every account and password, or any other octets
    mask = P.bytes("mask", 20, [0] * 20) if n and P.flag("twist", 1) else bytes(20 if n else 0)
    tail = P.bytes("tail", n - 20, [5] * (n - 20)) if n > 20 else b""
    seen = []

    def proof(nonce):
        p = xor(native(used.encode(), nonce), mask) + tail if n else b""
        p = p[:n]
        seen.append((nonce, p))
        return p
    with World(session_factory=hub.factory, identity_provider=users) as w, sources(P, w) as src:
        c = Client(w.open())
        r = answer(P, c, w, route, proof, caps)
        nonce, p = seen[0]
        good = []
        for x in (cur, old):
            if x and x[0] != "!":
                good.append(native(x.encode(), nonce))
        fits = False
        if n >= 20:
            for x in good:
                if p[:20] == x:
                    fits = True
        ok = served(c, hub, w, r, "u", route)
        if ok:
            check(fits or n == 0 and not cur, "a proof that does not fit the secret and nonce is accepted", (route, acct, used, n))
        else:
            check(not (fits and n == 20), "a correct proof is refused", (route, acct, used, n))
            check(not (n == 0 and not cur and not old), "an account without password is refused", (route, acct))
        return [route, acct, used, n, ok]


for _r in ROUTES:
    CASES.append(Case("native-" + _r, native_case(_r), weight=3, max_paths=3000))


def short(P):
    """responses of one or two octets whose hash begins or ends like the stored secret"""
    from mysql_mimic.auth import User
    route = P.choice("route", ROUTES)
    n = P.choice("len", [1, 2])
    suffix = P.flag("suffix")
    which = P.choice("secret", ["current", "secondary"])
    h1 = hashlib.sha1(SHORT).digest()
    secret = hashlib.sha1(h1).digest()
    x = guess(n, suffix, secret)
    users = Users({"u": User("u", stored("pw2") if which == "secondary" else secret.hex(), "mysql_native_password", secret.hex() if which == "secondary" else None),
                   "g": User("g", "", "mysql_native_password")})
    hub = RawHub()

    def proof(nonce):
        pad = hashlib.sha1(nonce + secret).digest()
        return xor(x, pad[len(pad) - n:] if suffix and P.flag("right") else pad[:n])
    with World(session_factory=hub.factory, identity_provider=users) as w:
        c = Client(w.open())
        ok = served(c, hub, w, answer(P, c, w, route, proof, BASE | DEPRECATE_EOF), "u", route)
        check(not ok, "a response of %d octets is accepted" % n, (route, which, suffix))
        return [route, n, suffix, which]


SHORT = b"pw5"
GUESS = {}


def guess(n, suffix, secret):
    if (n, suffix) not in GUESS:
        for k in range(256 ** n):
            x = k.to_bytes(n, "big")
            d = hashlib.sha1(x).digest()
            if (d[20 - n:] if suffix else d[:n]) == (secret[20 - n:] if suffix else secret[:n]):
                GUESS[n, suffix] = x
                break
    return GUESS[n, suffix]


CASES.append(Case("native-short", short, weight=1, max_paths=500))


def foreign(P):
    """the handshake's data belongs to another plugin: it is no nonce of this one, and a fresh one is announced"""
    from mysql_mimic.auth import AuthPlugin, User, AbstractClearPasswordAuthPlugin, NativePasswordAuthPlugin, NoLoginAuthPlugin, Success
    default = P.choice("default", ["clear", "nologin", "custom"])
    filler = P.bytes("filler", 20, [48] * 20, lo=1)

    class Custom(AuthPlugin):
        name = "custom"

        async def auth(self, auth_info=None):
            if not auth_info:
                auth_info = yield filler + b"\0"
            yield Success(auth_info.username)

    class Clear(AbstractClearPasswordAuthPlugin):
        name = "clear"
    first = {"clear": Clear, "nologin": NoLoginAuthPlugin, "custom": Custom}[default]()
    users = Users({"u": User("u", stored("pw1"), "mysql_native_password", stored("pw2")),
                   "g": User("g", "", "mysql_native_password" if default == "nologin" else first.name)},
                  [first, NativePasswordAuthPlugin()])
    hub = RawHub()
    caps = BASE | DEPRECATE_EOF
    phase = P.choice("phase", ["handshake", "change"])
    said = P.choice("said", [b"mysql_native_password", b"mysql_clear_password", b"other"])
    with World(session_factory=hub.factory, identity_provider=users) as w, sources(P, w) as src:
        c = Client(w.open())
        c.read_greeting()
        c.caps = caps
        if phase == "change":
            c.send(c.response41(b"g", b"\0", caps, plugin=b"mysql_clear_password"), seq=1)
            r = c.auth_result()
            if r.kind in ("switch", "more"):
                c.send(b"", seq=c.seq)
                r = c.auth_result()
            check(r.kind == "ok", "login", r)
        # a response to what the handshake announced
        proof = native(b"pw1", c.greeting.auth[:20])
        if phase == "handshake":
            c.send(c.response41(b"u", proof, caps, plugin=said), seq=1)
        else:
            c.send_command(c.c_change_user(b"u", proof, plugin=said))
        r = c.auth_result()
        check(r.kind != "ok", "a response to data that is no nonce of this plugin is accepted", (default, phase, said))
        ok = None
        if r.kind in ("switch", "more"):
            data = r.data
            check(len(data) == 21 and data[20] == 0, "nonce", data)
            sane_nonce(data[:20])
            good = P.flag("good", True)
            c.send(native(b"pw2" if good else b"pw3", data[:20]), seq=c.seq)
            r = c.auth_result()
            ok = served(c, hub, w, r, "u", phase)
            check(ok == good, "proof accepted" if ok else "proof refused", (default, phase, said))
        return [default, phase, said, ok]


CASES.append(Case("foreign", foreign, weight=2, max_paths=1000))


def fresh(P):
    """nonces of different connections: a captured proof is useless"""
    from mysql_mimic.auth import User, NativePasswordAuthPlugin
    users = Users({"u": User("u", stored("pw1"), "mysql_native_password", stored("pw2")), "g": User("g", "", "mysql_native_password")})
    hub = RawHub()
    caps = BASE | DEPRECATE_EOF
    r1 = P.choice("route1", ["handshake", "handshake-switch"])
    r2 = P.choice("route2", ROUTES)
    captured = []
    with World(session_factory=hub.factory, identity_provider=users) as w, sources(P, w, bulk=False) as src:
        a = Client(w.open())

        def proof1(nonce):
            p = native(b"pw1", nonce)
            captured.append((nonce, p))
            return p
        order = P.choice("order", ["before", "during"])
        b = Client(w.open()) if order == "during" else None
        check(answer(P, a, w, r1, proof1, caps).kind == "ok", "login")
        mark = len(src.log)
        b = b or Client(w.open())
        other = []

        def proof2(nonce):
            other.append(nonce)
            return captured[0][1]
        r = answer(P, b, w, r2, proof2, caps)
        # different random draws give different nonces
        same = captured[0][0] == other[0]
        drawn = src.log
        if len(drawn) >= 40:
            if same:
                # only when the draws happened to be equal
                eq = False
                k = len(drawn) // 20
                for i in range(k):
                    for j in range(i):
                        if "".join(drawn[20 * i:20 * i + 20]) == "".join(drawn[20 * j:20 * j + 20]):
                            eq = True
                check(eq, "two connections share a nonce")
        else:
            check(not same, "two connections share a nonce")
        check(same or r.kind == "err", "a proof captured on another connection is accepted")
        return [r1, r2, order, same]


CASES.append(Case("fresh", fresh, weight=2, max_paths=500))


def accounts(P):
    """a proof with another account's password, and names that differ in one character"""
    from mysql_mimic.auth import User
    route = P.choice("route", ROUTES)
    names = {"u": ("pw1", None), "v": ("pw2", None), "w": ("pw2", "pw1"), "x": ("", None)}
    users = Users({k: User("id-" + k, stored(a), "mysql_native_password", stored(b)) for k, (a, b) in names.items()})
    users.users["g"] = User("g", "", "mysql_native_password")
    hub = RawHub()
    name = P.str("name", 1, ranges=((97, 122),), default="u")
    used = P.choice("password", ["pw1", "pw2"])
    caps = BASE | DEPRECATE_EOF
    with World(session_factory=hub.factory, identity_provider=users) as w, sources(P, w) as src:
        c = Client(w.open())
        saved = c.response41, c.c_change_user
        c.response41 = lambda user, *a, **k: saved[0](name.encode() if user == b"u" else user, *a, **k)
        c.c_change_user = lambda user, *a, **k: saved[1](name.encode() if user == b"u" else user, *a, **k)
        if P.flag("blank"):
            proof = lambda nonce: b""
        else:
            proof = lambda nonce: native(used.encode(), nonce)
        blank = proof(b"0" * 20) == b""
        known = None
        for k in list(names) + ["g"]:
            if name == k:
                known = k
        P.assume(known != "g")
        if known is None and route.endswith("switch"):
            return ["n/a"]
        r = answer(P, c, w, route, proof, caps)
        ok = served(c, hub, w, r, "id-%s" % known, route)
        want = False
        if known is not None:
            cur, old = names[known]
            want = (not cur) if blank else used in (cur, old)
        check(ok == want, "accepted" if ok else "refused", (route, known, used))
        return [route, known, used, ok]


CASES.append(Case("accounts", accounts, weight=2, max_paths=1000))


def clear(P):
    """the clear-password plugin asks the application with exactly the transmitted password"""
    from mysql_mimic.auth import User, AbstractClearPasswordAuthPlugin, NativePasswordAuthPlugin
    route = P.choice("route", ROUTES)
    kind = P.choice("kind", ["chars", "opaque"])
    caps = BASE | DEPRECATE_EOF
    if kind == "chars":
        k = P.small("len", 0, 2, 2)
        pw = P.str("pw", k, ranges=((1, 0xD7FF), (0xE000, 0x10FFFF)), default="p\u00e9w")
    else:
        caps |= LENENC_AUTH if route == "handshake" and P.flag("lenenc") else 0
        pw = P.strblob("pw", 0, 70000 if route.endswith("switch") or caps & LENENC_AUTH else 254, 9)
    decision = P.choice("decision", ["same", "other", "refuse", "raise", "anonymous"])
    term = P.flag("terminated", True) if decision == "same" else True
    asked = []

    class Clear(AbstractClearPasswordAuthPlugin):
        name = "clear"

        async def check(self, username, password):
            asked.append((username, password))
            if decision == "raise":
                raise RuntimeError("directory")
            return username if decision == "same" else "mapped" if decision == "other" else "" if decision == "anonymous" else None
    first = route.startswith("handshake") and not route.endswith("switch")
    native_p = NativePasswordAuthPlugin()
    users = Users({"u": User("u", "x", "clear"), "g": User("g", "", "mysql_native_password")},
                  [Clear(), native_p] if first else [native_p, Clear()])
    hub = RawHub()
    with World(session_factory=hub.factory, identity_provider=users) as w:
        c = Client(w.open())
        data = pw.encode() + (b"\0" if term else b"")
        say = b"mysql_native_password" if route.endswith("switch") else b"mysql_clear_password"
        if route.startswith("handshake"):
            c.read_greeting()
            c.caps = caps
            c.send(c.response41(b"u", b"" if route.endswith("switch") else data, caps, plugin=say), seq=1)
        else:
            check(c.login(b"g", caps=caps).kind == "ok", "login")
            c.send_command(c.c_change_user(b"u", b"" if route.endswith("switch") else data, plugin=say))
        r = c.auth_result()
        if route.endswith("switch"):
            check(r.kind == "switch" and r.plugin == b"mysql_clear_password", "auth switch", r)
            c.send(data, seq=c.seq)
            r = c.auth_result()
        if term:
            check(asked == [("u", pw)], "the application is asked about another password", asked)
        else:
            check(len(asked) <= 1, "asked twice")
        ok = served(c, hub, w, r, {"same": "u", "anonymous": ""}.get(decision, "mapped"), route)
        if term:
            check(ok == (decision in ("same", "other", "anonymous")), "decision of the application is not followed", (ok, decision))
        elif ok:
            check(asked and asked[0][1] == pw and decision in ("same", "other", "anonymous"), "decision of the application is not followed")
        return [route, decision, ok]


CASES.append(Case("clear", clear, weight=3, max_paths=4000))


def nologin(P):
    from mysql_mimic.auth import User, NoLoginAuthPlugin, NativePasswordAuthPlugin
    route = P.choice("route", ["handshake", "change"])
    first = P.choice("default", ["native", "nologin"])
    said = P.choice("said", [b"mysql_native_password", b"mysql_no_login", b"mysql_clear_password", b""])
    ps = [NativePasswordAuthPlugin(), NoLoginAuthPlugin()]
    users = Users({"u": User("u", P.choice("secret", ["", stored("pw1")]), "mysql_no_login"), "g": User("g", "", "mysql_native_password")},
                  ps if first == "native" else ps[::-1])
    hub = RawHub()
    caps = BASE | DEPRECATE_EOF
    n = P.choice("len", [0, 1, 20, 21])
    data = P.bytes("data", n)
    with World(session_factory=hub.factory, identity_provider=users) as w:
        c = Client(w.open())
        if route == "handshake":
            c.read_greeting()
            c.caps = caps
            c.send(c.response41(b"u", data, caps, plugin=said), seq=1)
        else:
            if first == "native":
                check(c.login(b"g", caps=caps).kind == "ok", "login")
            else:
                c.read_greeting()
                c.caps = caps
                c.send(c.response41(b"g", b"", caps, plugin=b"mysql_native_password"), seq=1)
                r = c.auth_result()
                if r.kind in ("switch", "more"):
                    c.send(b"", seq=c.seq)
                    r = c.auth_result()
                check(r.kind == "ok", "login", r)
            c.send_command(c.c_change_user(b"u", data, plugin=said))
        r = c.auth_result()
        if r.kind in ("switch", "more"):
            c.send(P.bytes("more", P.choice("len2", [0, 1, 20])), seq=c.seq)
            r = c.auth_result()
        check(r.kind == "err", "no-login account accepted", r)
        check(c.peer.closed and hub.calls == [], "no-login account served")
        return [route, first, said]


CASES.append(Case("nologin", nologin, weight=1, max_paths=1000))
