"""Application side: recording Session subclass, identity providers."""
import inspect

from mysql_mimic.session import Session
from mysql_mimic.auth import IdentityProvider, User, NativePasswordAuthPlugin


class Hub:
    """All sessions of one server, and the behaviour of the application."""

    def __init__(self, handler=None, schema=None, on_init=None, on_close=None, on_schema=None):
        self.handler = handler            # handler(session, expression, sql, attrs)
        self.schema = schema
        self.on_init = on_init
        self.on_close = on_close
        self.on_schema = on_schema
        self.sessions = []
        self.calls = []                   # (session index, sql, attrs, database)
        self.exprs = []

    def factory(self, *a, **k):
        s = App(*a, **k)
        s.hub = self
        s.index = len(self.sessions)
        s.inits = s.closes = 0
        s.inited = False
        self.sessions.append(s)
        return s


class App(Session):
    hub = None

    async def init(self, connection):
        self.inits += 1
        if self.hub.on_init is not None:
            r = self.hub.on_init(self)
            if inspect.isawaitable(r):
                await r
        await super().init(connection)
        self.inited = True

    async def close(self):
        self.closes += 1
        if self.hub.on_close is not None:
            r = self.hub.on_close(self)
            if inspect.isawaitable(r):
                await r
        await super().close()

    async def query(self, expression, sql, attrs):
        self.hub.calls.append((self.index, sql, dict(attrs), self.database))
        self.hub.exprs.append(expression)
        h = self.hub.handler
        if h is None:
            return None
        r = h(self, expression, sql, attrs)
        if inspect.isawaitable(r):
            r = await r
        return r

    async def schema(self):
        if self.hub.on_schema is not None:
            r = self.hub.on_schema(self)
            if inspect.isawaitable(r):
                r = await r
            return r
        return self.hub.schema or {}


class Users(IdentityProvider):
    """accounts: {name: User}; plugins in order (the first one is the default)"""

    def __init__(self, users=None, plugins=None):
        self.users = users
        self.plugins = plugins or [NativePasswordAuthPlugin()]
        self.asked = []

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        self.asked.append(username)
        if self.users is None:
            return User(name=username, auth_string="", auth_plugin=NativePasswordAuthPlugin.name)
        return self.users.get(username)


from mysql_mimic.session import BaseSession as _Base
from mysql_mimic.variables import SessionVariables as _SV, GlobalVariables as _GV


class RawHub:
    """BaseSession applications: see the text of every statement, unparsed"""

    def __init__(self, handler=None):
        self.handler = handler
        self.sessions = []
        self.calls = []

    def factory(self, *a, **k):
        s = Raw()
        s.hub = self
        s.index = len(self.sessions)
        self.sessions.append(s)
        return s


class Raw(_Base):
    hub = None

    def __init__(self):
        self.variables = _SV(_GV())
        self.username = None
        self.database = None
        self.inits = self.closes = 0

    async def init(self, connection):
        self.inits += 1

    async def close(self):
        self.closes += 1

    async def use(self, database):
        self.database = database

    async def handle_query(self, sql, attrs):
        self.hub.calls.append((self.index, sql, dict(attrs), self.database))
        h = self.hub.handler
        if h is None:
            return None
        r = h(self, None, sql, attrs)
        if inspect.isawaitable(r):
            r = await r
        return r
