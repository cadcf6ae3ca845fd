From b315d1aeed6852e5e448315a18e80205db237bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 01/43] fix: honour server_id=0 in LocalControl

---
 mysql_mimic/control.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/control.py b/mysql_mimic/control.py
index 8ef037c..b44eb61 100644
--- a/mysql_mimic/control.py
+++ b/mysql_mimic/control.py
@@ -59,7 +59,11 @@ class LocalControl(Control):
     def __init__(self, server_id: Optional[int] = None):
         self._connection_seq = seq(self._MAX_CONNECTION_SEQ)
         self._connections: Dict[int, Connection] = {}
-        self.server_id = server_id or random.randint(0, self._MAX_SERVER_ID - 1)
+        self.server_id = (
+            random.randint(0, self._MAX_SERVER_ID - 1)
+            if server_id is None
+            else server_id
+        )
 
     async def add(self, connection: Connection) -> int:
         connection_id = self._new_connection_id()
-- 
2.43.0


From c55ab088548bc8dd59705b20d5ad16e848d80bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 02/43] fix: close the socket of a client that is refused
 before it is served

---
 mysql_mimic/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index 6410a1e..d4102c7 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -84,6 +84,7 @@ class MysqlServer:
                 # Return an error so clients don't freeze
                 packets.make_error(capabilities=self.capabilities)
             )
+            writer.close()
             return
 
         try:
@@ -96,10 +97,12 @@ class MysqlServer:
                     code=ErrorCode.CON_COUNT_ERROR,
                 )
             )
+            writer.close()
             return
         except Exception:  # pylint: disable=broad-except
             logger.exception("Failed to register connection")
             await stream.write(connection.error(msg="Failed to register connection"))
+            writer.close()
             return
 
         try:
-- 
2.43.0


From 76ecc76a52a6519c602c9903c8e530406d9a988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 03/43] fix: read a packet header that is split across network
 reads

---
 mysql_mimic/stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index ed8c280..9d50e2d 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -32,6 +32,10 @@ class MysqlStream:
             if not header:
                 raise ConnectionClosed()
 
+            if len(header) < 4:
+                # The header was split across network reads
+                header += await self.reader.readexactly(4 - len(header))
+
             i = struct.unpack("<I", header)[0]
             payload_length = i & 0x00FFFFFF
             sequence_id = (i & 0xFF000000) >> 24
-- 
2.43.0


From 188b4e5d90506ce1b571c98aced9ef944e529836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 04/43] fix: don't reuse a write buffer the transport still
 holds

---
 mysql_mimic/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 9d50e2d..240cd85 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -75,7 +75,9 @@ class MysqlStream:
 
     async def drain(self) -> None:
         if self._buffer:
-            self.writer.write(self._buffer)
+            # The transport may hold on to what it's given until the socket accepts it,
+            # so don't reuse the buffer
+            self.writer.write(bytes(self._buffer))
             self._buffer.clear()
         await self.writer.drain()
 
-- 
2.43.0


From 906da55df38b583d4b8f60f23d0d0fec7f2b6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 05/43] fix: pass bytes received along with the SSL request on
 to the TLS handshake

---
 mysql_mimic/stream.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 240cd85..26eb9ad 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -88,6 +88,15 @@ class MysqlStream:
         transport = self.writer.transport
         protocol = transport.get_protocol()
         loop = asyncio.get_event_loop()
+
+        # Bytes of the TLS handshake may have arrived together with the SSL request,
+        # in which case they are already in the reader's buffer. Hand them to the TLS protocol.
+        # This callback runs before the TLS protocol starts the handshake.
+        buffered = bytes(self.reader._buffer)  # type: ignore # pylint: disable=protected-access
+        self.reader._buffer.clear()  # type: ignore # pylint: disable=protected-access
+        if buffered:
+            loop.call_soon(self._feed_protocol, transport, buffered)
+
         new_transport = await loop.start_tls(
             transport=transport,
             protocol=protocol,
@@ -98,3 +107,14 @@ class MysqlStream:
         # This seems to be the easiest way to wrap the socket created by asyncio
         self.writer._transport = new_transport  # type: ignore # pylint: disable=protected-access
         self.reader._transport = new_transport  # type: ignore # pylint: disable=protected-access
+
+    @staticmethod
+    def _feed_protocol(transport: asyncio.Transport, data: bytes) -> None:
+        protocol = transport.get_protocol()
+        assert isinstance(protocol, asyncio.BufferedProtocol)
+        while data:
+            buffer = protocol.get_buffer(len(data))
+            n = min(len(buffer), len(data))
+            buffer[:n] = data[:n]
+            protocol.buffer_updated(n)
+            data = data[n:]
-- 
2.43.0


From cb12599f47934c04c2155a9e0a3b42c5d05d812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 06/43] fix: don't serve commands after failed authentication

---
 mysql_mimic/connection.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5160192..fe00af1 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -33,6 +33,10 @@ from mysql_mimic.utils import seq, aiterate, cooperative_iterate
 logger = logging.getLogger(__name__)
 
 
+class AccessDenied(Exception):
+    """The client has been told that authentication failed"""
+
+
 class Connection:
     _MAX_PREPARED_STMT_ID = 2**32
 
@@ -96,6 +100,8 @@ class Connection:
         try:
             await self.connection_phase()
             await self.session.init(self)
+        except AccessDenied:
+            return
         except Exception as e:
             await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
             raise
@@ -214,7 +220,7 @@ class Connection:
                     code=ErrorCode.USER_DOES_NOT_EXIST,
                 )
             )
-            return
+            raise AccessDenied()
 
         user_plugin = (
             self.identity_provider.get_plugin(user.auth_plugin or "")
@@ -284,6 +290,7 @@ class Connection:
                     code=ErrorCode.ACCESS_DENIED_ERROR,
                 )
             )
+            raise AccessDenied()
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
@@ -331,6 +338,8 @@ class Connection:
                         ErrorCode.UNKNOWN_COM_ERROR,
                     )
 
+            except AccessDenied:
+                return
             except MysqlError as e:
                 logger.error(e)
                 await self.stream.write(self.error(msg=e.msg, code=e.code))
-- 
2.43.0


From 215de8543ac37f77637656e8361289ffada3760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 07/43] fix: apply COM_CHANGE_USER only once it has succeeded,
 before acknowledging it

---
 mysql_mimic/connection.py | 82 ++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 32 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index fe00af1..0c030e5 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -165,7 +165,7 @@ class Connection:
         self.zstd_compression_level = response.zstd_compression_level
         self.session.variables.set("external_user", response.username, force=True)
 
-        await self.authenticate(
+        self.session.username = await self.authenticate(
             auth_state=auth_state,
             server_plugin=default_auth_plugin,
             username=response.username,
@@ -173,6 +173,7 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
+        await self.stream.write(self.ok())
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
@@ -182,25 +183,35 @@ class Connection:
             data=data,
         )
 
-        self.session.database = com_change_user.database
-        self.session.variables.set(
-            "external_user", com_change_user.username, force=True
-        )
-        if com_change_user.client_charset:
+        try:
+            username = await self.authenticate(
+                username=com_change_user.username,
+                auth_response=com_change_user.auth_response,
+                client_plugin_name=com_change_user.client_plugin,
+                connect_attrs=com_change_user.connect_attrs,
+            )
+
+            self.session.username = username
+            self.session.database = com_change_user.database
             self.session.variables.set(
-                "character_set_client", com_change_user.client_charset.name
+                "external_user", com_change_user.username, force=True
             )
-        if com_change_user.connect_attrs:
-            self.client_connect_attrs = com_change_user.connect_attrs
-
-        await self.authenticate(
-            username=com_change_user.username,
-            auth_response=com_change_user.auth_response,
-            client_plugin_name=com_change_user.client_plugin,
-            connect_attrs=com_change_user.connect_attrs,
-        )
+            if com_change_user.client_charset:
+                self.session.variables.set(
+                    "character_set_client", com_change_user.client_charset.name
+                )
+            if com_change_user.connect_attrs:
+                self.client_connect_attrs = com_change_user.connect_attrs
 
-        await self.session.reset()
+            await self.session.reset()
+        except AccessDenied:
+            raise
+        except Exception as e:
+            logger.exception(e)
+            await self.stream.write(self.error(msg=e))
+            raise AccessDenied() from e
+
+        await self.stream.write(self.ok())
 
     async def authenticate(
         self,
@@ -210,7 +221,15 @@ class Connection:
         connect_attrs: Dict[str, str],
         auth_state: Optional[AuthState] = None,
         server_plugin: Optional[AuthPlugin] = None,
-    ) -> None:
+    ) -> str:
+        """
+        Run an authentication exchange.
+
+        Returns:
+            The name of the authenticated user. The caller must acknowledge this to the client.
+        Raises:
+            AccessDenied: if authentication failed. The client was already sent an error.
+        """
         user = await self.identity_provider.get_user(username)
 
         if not user:
@@ -276,21 +295,20 @@ class Connection:
             decision = await auth_state.asend(auth_info)
 
         if isinstance(decision, Success):
-            self.session.username = decision.authenticated_as
-            await self.stream.write(self.ok())
-        else:
-            logger.info(
-                "Access denied for user '%s' with plugin '%s'",
-                auth_info.user.name,
-                user_plugin.name,
-            )
-            await self.stream.write(
-                self.error(
-                    msg=decision.msg or f"Access denied for user {auth_info.user.name}",
-                    code=ErrorCode.ACCESS_DENIED_ERROR,
-                )
+            return decision.authenticated_as
+
+        logger.info(
+            "Access denied for user '%s' with plugin '%s'",
+            auth_info.user.name,
+            user_plugin.name,
+        )
+        await self.stream.write(
+            self.error(
+                msg=decision.msg or f"Access denied for user {auth_info.user.name}",
+                code=ErrorCode.ACCESS_DENIED_ERROR,
             )
-            raise AccessDenied()
+        )
+        raise AccessDenied()
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
-- 
2.43.0


From 663dbcadaf1def50951b66776f4ad636bde3772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 08/43] fix: let KILL abort at most the statement in progress

---
 mysql_mimic/connection.py | 180 ++++++++++++++++++++++----------------
 mysql_mimic/stream.py     |  20 ++++-
 2 files changed, 124 insertions(+), 76 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 0c030e5..3a0fd88 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -77,6 +77,10 @@ class Connection:
 
         self.connection_id: int = 0
         self._kill: Optional[KillKind] = None
+        # Is there a statement which hasn't queued its complete response yet?
+        self._in_statement = False
+        # Is the session being closed?
+        self._closing = False
         self._task: Optional[asyncio.Task] = None
 
     @property
@@ -108,23 +112,22 @@ class Connection:
 
         try:
             await self.command_phase()
-        except asyncio.CancelledError:
-            if self._kill == KillKind.CONNECTION:
-                logger.info("Connection %s killed", self.connection_id)
-                await self.stream.write(
-                    self.error(
-                        msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
-                    )
-                )
-                self._kill = None
-            else:
-                raise
         finally:
+            self._closing = True
             await self.session.close()
 
     def kill(self, kind: KillKind = KillKind.CONNECTION) -> None:
-        if self._task:
-            self._kill = kind
+        if not self._task or self._closing or self._kill == KillKind.CONNECTION:
+            return
+
+        if kind == KillKind.QUERY and (self._kill or not self._in_statement):
+            # There is nothing to abort, or it's already being aborted
+            return
+
+        self._kill = kind
+
+        # A connection that kills itself is never interrupted. It finishes its KILL statement first.
+        if asyncio.current_task(self._task.get_loop()) is not self._task:
             self._task.cancel()
 
     async def connection_phase(self) -> None:
@@ -312,73 +315,106 @@ class Connection:
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
-        while True:
+        while self._kill != KillKind.CONNECTION:
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
                 logger.info("Connection closed")
                 return
-            try:
-                command = data[0]
-                rest = data[1:]
-
-                if command == types.Commands.COM_QUERY:
-                    await self.handle_query(rest)
-                elif command == types.Commands.COM_STMT_PREPARE:
-                    await self.handle_stmt_prepare(rest)
-                elif command == types.Commands.COM_STMT_SEND_LONG_DATA:
-                    await self.handle_stmt_send_long_data(rest)
-                elif command == types.Commands.COM_STMT_EXECUTE:
-                    await self.handle_stmt_execute(rest)
-                elif command == types.Commands.COM_STMT_FETCH:
-                    await self.handle_stmt_fetch(rest)
-                elif command == types.Commands.COM_STMT_RESET:
-                    await self.handle_stmt_reset(rest)
-                elif command == types.Commands.COM_STMT_CLOSE:
-                    await self.handle_stmt_close(rest)
-                elif command == types.Commands.COM_PING:
-                    await self.handle_ping(rest)
-                elif command == types.Commands.COM_CHANGE_USER:
-                    await self.handle_change_user(rest)
-                elif command == types.Commands.COM_RESET_CONNECTION:
-                    await self.handle_reset_connection(rest)
-                elif command == types.Commands.COM_DEBUG:
-                    await self.handle_debug(rest)
-                elif command == types.Commands.COM_QUIT:
-                    return
-                elif command == types.Commands.COM_INIT_DB:
-                    await self.handle_init_db(rest)
-                elif command == types.Commands.COM_FIELD_LIST:
-                    await self.handle_field_list(rest)
-                else:
-                    raise MysqlError(
-                        f"Unsupported Command: {hex(command)}",
-                        ErrorCode.UNKNOWN_COM_ERROR,
-                    )
+            except asyncio.CancelledError:
+                if self._kill == KillKind.CONNECTION:
+                    break
+                raise
 
+            if data[:1] == types.uint_1(types.Commands.COM_QUIT):
+                return
+
+            try:
+                await self.handle_command(data)
             except AccessDenied:
                 return
             except MysqlError as e:
                 logger.error(e)
-                await self.stream.write(self.error(msg=e.msg, code=e.code))
+                self.stream.queue(self.error(msg=e.msg, code=e.code))
             except asyncio.CancelledError:
                 if self._kill == KillKind.QUERY:
                     logger.info("Query killed on connection %s", self.connection_id)
-                    if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
-                        self._task.uncancel()
-                    await self.stream.write(
-                        self.error(
-                            msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
-                        )
-                    )
-                    self._kill = None
+                    msg = "Query was killed"
+                elif self._kill == KillKind.CONNECTION:
+                    msg = "Session was killed"
                 else:
                     raise
+                self.stream.queue(
+                    self.error(msg=msg, code=ErrorCode.SESSION_WAS_KILLED)
+                )
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
-                await self.stream.write(self.error(msg=e))
+                self.stream.queue(self.error(msg=e))
             finally:
-                self.stream.reset_seq()
+                if self._kill == KillKind.QUERY:
+                    if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
+                        self._task.uncancel()
+                    self._kill = None
+
+            # The response is complete
+            self.stream.flush()
+            self.stream.reset_seq()
+            if self._kill != KillKind.CONNECTION:
+                try:
+                    await self.stream.drain()
+                except asyncio.CancelledError:
+                    if self._kill != KillKind.CONNECTION:
+                        raise
+
+        logger.info("Connection %s killed", self.connection_id)
+
+    async def handle_command(self, data: bytes) -> None:
+        """
+        Handle a single command.
+
+        Handlers must not wait for anything after they've queued the last packet of the response.
+        Otherwise, a killed statement could end up with two responses.
+        """
+        command = data[0]
+        rest = data[1:]
+
+        # The client is in the middle of an authentication exchange during COM_CHANGE_USER
+        self._in_statement = command != types.Commands.COM_CHANGE_USER
+
+        try:
+            if command == types.Commands.COM_QUERY:
+                await self.handle_query(rest)
+            elif command == types.Commands.COM_STMT_PREPARE:
+                await self.handle_stmt_prepare(rest)
+            elif command == types.Commands.COM_STMT_SEND_LONG_DATA:
+                await self.handle_stmt_send_long_data(rest)
+            elif command == types.Commands.COM_STMT_EXECUTE:
+                await self.handle_stmt_execute(rest)
+            elif command == types.Commands.COM_STMT_FETCH:
+                await self.handle_stmt_fetch(rest)
+            elif command == types.Commands.COM_STMT_RESET:
+                await self.handle_stmt_reset(rest)
+            elif command == types.Commands.COM_STMT_CLOSE:
+                await self.handle_stmt_close(rest)
+            elif command == types.Commands.COM_PING:
+                await self.handle_ping(rest)
+            elif command == types.Commands.COM_CHANGE_USER:
+                await self.handle_change_user(rest)
+            elif command == types.Commands.COM_RESET_CONNECTION:
+                await self.handle_reset_connection(rest)
+            elif command == types.Commands.COM_DEBUG:
+                await self.handle_debug(rest)
+            elif command == types.Commands.COM_INIT_DB:
+                await self.handle_init_db(rest)
+            elif command == types.Commands.COM_FIELD_LIST:
+                await self.handle_field_list(rest)
+            else:
+                raise MysqlError(
+                    f"Unsupported Command: {hex(command)}",
+                    ErrorCode.UNKNOWN_COM_ERROR,
+                )
+        finally:
+            self._in_statement = False
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
@@ -386,7 +422,7 @@ class Connection:
 
         COM_PING check if the server is alive.
         """
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_reset_connection(
         self, data: bytes
@@ -398,7 +434,7 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_debug(
         self, data: bytes
@@ -410,11 +446,11 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_init_db(self, data: bytes) -> None:
         await self.session.use(parse_com_init_db(self.client_charset, data))
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_field_list(self, data: bytes) -> None:
         com_field_list = parse_com_field_list(self.client_charset, data)
@@ -433,7 +469,7 @@ class Connection:
             ]
         )
         await self.stream.write(columns)
-        await self.stream.write(self.ok_or_eof())
+        await self.stream.write(self.ok_or_eof(), drain=False)
 
     async def handle_query(self, data: bytes) -> None:
         """
@@ -451,12 +487,11 @@ class Connection:
         result_set = await self.query(com_query.sql, com_query.query_attrs)
 
         if not result_set:
-            await self.stream.write(self.ok())
+            await self.stream.write(self.ok(), drain=False)
             return
 
         async for packet in self.text_resultset(result_set):
             await self.stream.write(packet, drain=False)
-        await self.stream.drain()
 
     async def handle_stmt_prepare(self, data: bytes) -> None:
         """
@@ -478,7 +513,6 @@ class Connection:
 
         for packet in self.com_stmt_prepare_response(stmt):
             await self.stream.write(packet, drain=False)
-        await self.stream.drain()
 
     async def handle_stmt_send_long_data(self, data: bytes) -> None:
         """
@@ -515,7 +549,7 @@ class Connection:
         )
 
         if not result_set:
-            await self.stream.write(self.ok())
+            await self.stream.write(self.ok(), drain=False)
             return
 
         await self.stream.write(types.uint_len(len(result_set.columns)))
@@ -546,7 +580,7 @@ class Connection:
                 await self.stream.write(self.eof())
             async for row in rows:
                 await self.stream.write(row)
-            await self.stream.write(self.ok_or_eof())
+            await self.stream.write(self.ok_or_eof(), drain=False)
 
     async def handle_stmt_fetch(self, data: bytes) -> None:
         """
@@ -591,7 +625,7 @@ class Connection:
         stmt.param_buffers = None
         stmt.cursor = None
         await self.session.reset()
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_stmt_close(self, data: bytes) -> None:
         """
diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 26eb9ad..364b15b 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -56,6 +56,18 @@ class MysqlStream:
                 return data
 
     async def write(self, data: bytes, drain: bool = True) -> None:
+        # Only wait before or after queueing the payload, so that a cancellation
+        # never leaves a partial payload behind.
+        if len(self._buffer) >= self._buffer_size:
+            await self.drain()
+
+        self.queue(data)
+
+        if drain:
+            await self.drain()
+
+    def queue(self, data: bytes) -> None:
+        """Add a payload to the write buffer"""
         while True:
             # Grab first 0xFFFFFF bytes to send
             payload = data[:0xFFFFFF]
@@ -66,19 +78,21 @@ class MysqlStream:
             packet = payload_length + sequence_id + payload
 
             self._buffer.extend(packet)
-            if drain or len(self._buffer) >= self._buffer_size:
-                await self.drain()
 
             # We are done unless len(send) == 0xFFFFFF
             if len(payload) != 0xFFFFFF:
                 return
 
-    async def drain(self) -> None:
+    def flush(self) -> None:
+        """Hand the write buffer to the transport"""
         if self._buffer:
             # The transport may hold on to what it's given until the socket accepts it,
             # so don't reuse the buffer
             self.writer.write(bytes(self._buffer))
             self._buffer.clear()
+
+    async def drain(self) -> None:
+        self.flush()
         await self.writer.drain()
 
     def reset_seq(self) -> None:
-- 
2.43.0


From d29a8eda54b6faadb6231810ad4e50035e996406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 09/43] fix: deliver every row of a cursor exactly once

---
 mysql_mimic/connection.py | 24 +++++++++++++++---------
 mysql_mimic/prepared.py   |  4 ++--
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 3a0fd88..7c56cd5 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -543,6 +543,7 @@ class Connection:
         )
 
         com_stmt_execute.stmt.param_buffers = None
+        com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
             com_stmt_execute.sql, com_stmt_execute.query_attrs
@@ -591,17 +592,20 @@ class Connection:
         com_stmt_fetch = packets.parse_handle_stmt_fetch(data)
 
         stmt = self.get_stmt(com_stmt_fetch.stmt_id)
-        assert stmt.cursor is not None
-        count = 0
+        cursor = stmt.cursor
+        assert cursor is not None
+        done = False
 
-        async for packet in cooperative_iterate(stmt.cursor):
-            if count >= com_stmt_fetch.num_rows:
+        # If anything goes wrong, the cursor's position is unknown
+        stmt.cursor = None
+
+        for _ in range(com_stmt_fetch.num_rows):
+            try:
+                packet = await cursor.__anext__()
+            except StopAsyncIteration:
+                done = True
                 break
             await self.stream.write(packet, drain=False)
-            count += 1
-        await self.stream.drain()
-
-        done = count < com_stmt_fetch.num_rows
 
         await self.stream.write(
             self.ok_or_eof(
@@ -610,8 +614,10 @@ class Connection:
                     if done
                     else types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS
                 )
-            )
+            ),
+            drain=False,
         )
+        stmt.cursor = cursor
 
     async def handle_stmt_reset(self, data: bytes) -> None:
         """
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 925efba..15867c4 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,6 +1,6 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable
+from typing import Optional, Dict, AsyncIterator
 
 # Borrowed from mysql-connector-python
 REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
@@ -12,4 +12,4 @@ class PreparedStatement:
     sql: str
     num_params: int
     param_buffers: Optional[Dict[int, bytearray]] = None
-    cursor: Optional[AsyncIterable[bytes]] = None
+    cursor: Optional[AsyncIterator[bytes]] = None
-- 
2.43.0


From 658b9e30e4d6a78bf155a36a98843bc0599621a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 10/43] fix: no EOF after the parameters of a prepared
 statement with CLIENT_DEPRECATE_EOF

---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 7c56cd5..7f7ef4a 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -727,4 +727,5 @@ class Connection:
                 yield packets.make_column_definition_41(
                     server_charset=self.server_charset, name="?"
                 )
-            yield self.eof()
+            if not self.deprecate_eof():
+                yield self.eof()
-- 
2.43.0


From 708dbd00a2817d7ee89374430192a6770f0e8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 11/43] fix: send each column of COM_FIELD_LIST in its own
 packet

---
 mysql_mimic/connection.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 7f7ef4a..db9cd08 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -456,19 +456,18 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        columns = b"".join(
-            [
+
+        async for row in aiterate(result.rows):
+            await self.stream.write(
                 make_column_definition_41(
                     server_charset=self.server_charset,
                     table=com_field_list.table,
                     name=row[0],
                     is_com_field_list=True,
                     default=row[4],
-                )
-                async for row in aiterate(result.rows)
-            ]
-        )
-        await self.stream.write(columns)
+                ),
+                drain=False,
+            )
         await self.stream.write(self.ok_or_eof(), drain=False)
 
     async def handle_query(self, data: bytes) -> None:
-- 
2.43.0


From 3288ba4d0a4c3596375af7cc619454efbf641bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 12/43] fix: announce metadata in COM_STMT_EXECUTE responses
 with CLIENT_OPTIONAL_RESULTSET_METADATA

---
 mysql_mimic/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index db9cd08..8104bb5 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -552,7 +552,11 @@ class Connection:
             await self.stream.write(self.ok(), drain=False)
             return
 
-        await self.stream.write(types.uint_len(len(result_set.columns)))
+        await self.stream.write(
+            packets.make_column_count(
+                capabilities=self.capabilities, column_count=len(result_set.columns)
+            )
+        )
 
         for column in result_set.columns:
             await self.stream.write(
-- 
2.43.0


From b0b1775d7b0de8449201b01d65073ef2c2d467dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 13/43] fix: never respond to COM_STMT_SEND_LONG_DATA

---
 mysql_mimic/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 8104bb5..299adfd 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -520,7 +520,10 @@ class Connection:
         COM_STMT_SEND_LONG_DATA sends the data for a column.
         """
         com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
-        stmt = self.get_stmt(com_stmt_send_long_data.stmt_id)
+        stmt = self.prepared_stmts.get(com_stmt_send_long_data.stmt_id)
+        if stmt is None:
+            # There is no response to this command, not even if it fails
+            return
         if stmt.param_buffers is None:
             stmt.param_buffers = {}
         buffer = stmt.param_buffers.setdefault(
-- 
2.43.0


From ac327f547ff2ee0b83f82ac335c95bcf6549ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 14/43] fix: report errors whose message isn't representable in
 character_set_results

---
 mysql_mimic/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 19604d0..cbd8f8a 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -165,7 +165,8 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    parts.append(str_rest(server_charset.encode(str(msg))))
+    # Reporting the error matters more than characters the client can't display
+    parts.append(str_rest(str(msg).encode(server_charset.codec, errors="replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From d72366adc08466e985ab1d21faabe860b2f99ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 15/43] fix: encode column defaults in COM_FIELD_LIST once

---
 mysql_mimic/packets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index cbd8f8a..ff9a211 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -378,8 +378,7 @@ def make_column_definition_41(
         if default is None:
             parts.append(uint_len(0))
         else:
-            default_values = server_charset.encode(default)
-            parts.extend([uint_len(len(default_values)), str_len(default_values)])
+            parts.append(str_len(server_charset.encode(default)))
     return _concat(*parts)
 
 
-- 
2.43.0


From 6659b21480dbd4d452c6a5e7e6f01e80587a75ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 16/43] fix: use the codecs that correspond to MySQL's
 character sets

---
 mysql_mimic/charset.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 5e971a8..7934df1 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -2,6 +2,23 @@ from __future__ import annotations
 from enum import IntEnum
 
 
+# Python codecs of the character sets which Python knows by another name.
+# MySQL's utf16, utf32 and ucs2 are big-endian and don't use a byte order mark.
+_CODECS = {
+    "utf8mb4": "utf8",
+    "hp8": "hp_roman8",
+    "koi8r": "koi8_r",
+    "koi8u": "koi8_u",
+    "ucs2": "utf_16_be",
+    "macce": "mac_latin2",
+    "utf16": "utf_16_be",
+    "utf16le": "utf_16_le",
+    "utf32": "utf_32_be",
+    "binary": "utf8",
+    "eucjpms": "euc_jp",
+}
+
+
 class CharacterSet(IntEnum):
     big5 = 1
     dec8 = 3
@@ -47,9 +64,7 @@ class CharacterSet(IntEnum):
 
     @property
     def codec(self) -> str:
-        if self.name == "utf8mb4":
-            return "utf8"
-        return self.name
+        return _CODECS.get(self.name, self.name)
 
     @property
     def default_collation(self) -> Collation:
-- 
2.43.0


From 1581a482ca601334dd4a82555b5e4baefe2eadd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 17/43] fix: reject variable values that would break the
 session

---
 mysql_mimic/variables.py | 62 +++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index e5a0d8a..0a4adc9 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import abc
+import codecs
 import re
 from datetime import timezone, timedelta
 from functools import lru_cache
@@ -19,15 +20,47 @@ VariableSchema = Tuple[VariableType, Any, bool]
 
 DEFAULT = Default()
 
+
+def _bool(value: Any) -> bool:
+    if isinstance(value, str):
+        name = value.lower()
+        if name in {"on", "true", "1"}:
+            return True
+        if name in {"off", "false", "0"}:
+            return False
+        raise MysqlError(
+            f"Invalid boolean: {value}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        )
+    return bool(value)
+
+
+def _character_set(value: Any) -> str:
+    try:
+        charset = CharacterSet[str(value).lower()]
+        codecs.lookup(charset.codec)
+    except (KeyError, LookupError) as e:
+        raise MysqlError(
+            f"Unknown or unsupported character set: {value}",
+            code=ErrorCode.WRONG_VALUE_FOR_VAR,
+        ) from e
+    return charset.name
+
+
+def _time_zone(value: Any) -> str:
+    tz = str(value)
+    parse_timezone(tz)
+    return tz
+
+
 SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     # name: (type, default, dynamic)
     "auto_increment_increment": (int, 1, True),
-    "autocommit": (bool, True, True),
-    "character_set_client": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_connection": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_database": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_results": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_server": (str, CharacterSet.utf8mb4.name, True),
+    "autocommit": (_bool, True, True),
+    "character_set_client": (_character_set, CharacterSet.utf8mb4.name, True),
+    "character_set_connection": (_character_set, CharacterSet.utf8mb4.name, True),
+    "character_set_database": (_character_set, CharacterSet.utf8mb4.name, True),
+    "character_set_results": (_character_set, CharacterSet.utf8mb4.name, True),
+    "character_set_server": (_character_set, CharacterSet.utf8mb4.name, True),
     "collation_connection": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_database": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_server": (str, Collation.utf8mb4_general_ci.name, True),
@@ -40,13 +73,13 @@ SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     "max_execution_time": (int, 0, True),
     "net_buffer_length": (int, 16384, True),
     "net_write_timeout": (int, 28800, True),
-    "performance_schema": (bool, False, False),
-    "sql_auto_is_null": (bool, False, True),
+    "performance_schema": (_bool, False, False),
+    "sql_auto_is_null": (_bool, False, True),
     "sql_mode": (str, "ANSI", True),
     "sql_select_limit": (int, None, True),
     "system_time_zone": (str, "UTC", False),
-    "time_zone": (str, "UTC", True),
-    "transaction_read_only": (bool, False, True),
+    "time_zone": (_time_zone, "UTC", True),
+    "transaction_read_only": (_bool, False, True),
     "transaction_isolation": (str, "READ-COMMITTED", True),
     "version": (str, "8.0.29", False),
     "version_comment": (str, "mysql-mimic", False),
@@ -124,14 +157,14 @@ class SessionVariables(Variables):
         return self.global_variables.schema
 
 
-RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)")
+RE_TIMEZONE = re.compile(r"(?P<sign>[+-])(?P<hours>[0-9]{2}):(?P<minutes>[0-5][0-9])")
 
 
 @lru_cache(maxsize=48)
 def parse_timezone(tz: str) -> timezone:
     if tz.lower() == "utc":
         return timezone.utc
-    match = RE_TIMEZONE.match(tz)
+    match = RE_TIMEZONE.fullmatch(tz)
     if not match:
         raise MysqlError(msg=f"Invalid timezone: {tz}")
     offset = timedelta(
@@ -139,4 +172,7 @@ def parse_timezone(tz: str) -> timezone:
     )
     if match.group("sign") == "-":
         offset = offset * -1
-    return timezone(offset)
+    try:
+        return timezone(offset)
+    except ValueError as e:
+        raise MysqlError(msg=f"Invalid timezone: {tz}") from e
-- 
2.43.0


From 97579563d568866ba43e4895d6282c08ddab0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 18/43] fix: recognize DEFAULT, ON, OFF and character set names
 in any case

---
 mysql_mimic/intercept.py | 7 ++++---
 mysql_mimic/session.py   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26e77c0..2ad6cb3 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -56,11 +56,12 @@ def expression_to_value(expression: exp.Expression) -> Any:
             return float(expression.this)
     if isinstance(expression, exp.Literal):
         return expression.name
-    if expression.name == "DEFAULT":
+    keyword = expression.name.upper()
+    if keyword == "DEFAULT":
         return DEFAULT
-    if expression.name == "ON":
+    if keyword == "ON":
         return True
-    if expression.name == "OFF":
+    if keyword == "OFF":
         return False
     raise MysqlError(
         "Complex expressions in variables not supported yet",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0fdb119..20db7fe 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -563,7 +563,7 @@ class Session(BaseSession):
             charset_name = item.name
             collation_name = (
                 item.text("collate")
-                or CharacterSet[charset_name].default_collation.name
+                or CharacterSet[charset_name.lower()].default_collation.name
             )
         self.variables.set("character_set_client", charset_name)
         self.variables.set("character_set_connection", charset_name)
-- 
2.43.0


From fd95092f5e2acd4c89c96a38adad52ef1fc7a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 19/43] fix: let a change of time_zone take effect on NOW()
 within the same query text

---
 mysql_mimic/session.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 20db7fe..b425121 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -191,9 +191,9 @@ class Session(BaseSession):
             "CURRENT_USER": lambda: self.username,
             "VERSION": lambda: self.variables.get("version"),
             "DATABASE": lambda: self.database,
-            "NOW": lambda: self.timestamp.strftime("%Y-%m-%d %H:%M:%S"),
-            "CURDATE": lambda: self.timestamp.strftime("%Y-%m-%d"),
-            "CURTIME": lambda: self.timestamp.strftime("%H:%M:%S"),
+            "NOW": lambda: self._local_timestamp().strftime("%Y-%m-%d %H:%M:%S"),
+            "CURDATE": lambda: self._local_timestamp().strftime("%Y-%m-%d"),
+            "CURTIME": lambda: self._local_timestamp().strftime("%H:%M:%S"),
         }
         # Synonyms
         self._functions.update(
@@ -592,6 +592,10 @@ class Session(BaseSession):
     def _show_errors(self, show: exp.Show) -> AllowedResult:
         return [], ["Level", "Code", "Message"]
 
+    def _local_timestamp(self) -> datetime:
+        """Time when query started, in the time zone of the session"""
+        return self.timestamp.astimezone(self.timezone())
+
     def timezone(self) -> timezone_:
         tz = self.variables.get("time_zone")
         return parse_timezone(tz)
-- 
2.43.0


From df3c1e122bc40983ee76411a9ca861ef91f0e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 20/43] fix: only answer queries on catalog tables from the
 information schema

---
 mysql_mimic/session.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index b425121..0a34d40 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -506,10 +506,8 @@ class Session(BaseSession):
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
-        dbs = find_dbs(q.expression)
-        if (self.database and self.database.lower() in INFO_SCHEMA) or (
-            dbs and all(db.lower() in INFO_SCHEMA for db in dbs)
-        ):
+        dbs = [db or self.database or "" for db in find_dbs(q.expression)]
+        if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
             return await self._query_info_schema(q.expression)
         return await q.next()
 
-- 
2.43.0


From da70de9e128912dcd3bf8c936af7aa8e5cd98a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 21/43] fix: DESCRIBE the table which is named, and nothing but
 tables

---
 mysql_mimic/session.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0a34d40..32afd2e 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -393,12 +393,17 @@ class Session(BaseSession):
     async def _describe_middleware(self, q: Query) -> AllowedResult:
         """Intercept DESCRIBE statements"""
         if isinstance(q.expression, exp.Describe):
-            if isinstance(q.expression.this, exp.Select):
+            table = q.expression.this
+            if not isinstance(table, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
-            name = q.expression.this.name
-            show = self.dialect().parse(f"SHOW COLUMNS FROM {name}")[0]
-            return await self._show(show) if isinstance(show, exp.Show) else None
+            return await self._show(
+                exp.Show(
+                    this="COLUMNS",
+                    target=table.this,
+                    db=table.args.get("db"),
+                )
+            )
         return await q.next()
 
     async def _rollback_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From f7fddff013f5dd8f980173a8a2283867aa1ba9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 22/43] fix: find all tables of a query, whatever their names
 and aliases

---
 mysql_mimic/utils.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e1444af..54d4970 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -9,7 +9,6 @@ from typing import List, TypeVar, AsyncIterable, Iterable, AsyncIterator, cast
 import string
 
 from sqlglot import expressions as exp
-from sqlglot.optimizer.scope import traverse_scope
 
 
 T = TypeVar("T")
@@ -54,19 +53,38 @@ def nonce(nbytes: int) -> bytes:
 
 
 def find_tables(expression: exp.Expression) -> List[exp.Table]:
-    """Find all tables in an expression"""
+    """Find all tables a query reads"""
     if isinstance(
         expression, (exp.Select, exp.Subquery, exp.Union, exp.Except, exp.Intersect)
     ):
         return [
-            source
-            for scope in traverse_scope(expression)
-            for source in scope.sources.values()
-            if isinstance(source, exp.Table)
+            table for table in expression.find_all(exp.Table) if not _is_cte(table)
         ]
     return []
 
 
+def _is_cte(table: exp.Table) -> bool:
+    """Does this refer to a common table expression?"""
+    if table.text("db"):
+        return False
+
+    node: exp.Expression = table
+    while node.parent:
+        node, child = node.parent, node
+        if isinstance(node, exp.With):
+            # A CTE can refer to the ones before it, and to itself if it's recursive
+            ctes = node.expressions
+            if not node.recursive:
+                ctes = ctes[: child.index]
+        else:
+            with_ = node.args.get("with")
+            ctes = with_.expressions if with_ and with_ is not child else []
+        if any(cte.alias.lower() == table.name.lower() for cte in ctes):
+            return True
+
+    return False
+
+
 def find_dbs(expression: exp.Expression) -> List[str]:
     """Find all database names in an expression"""
     return [table.text("db") for table in find_tables(expression)]
-- 
2.43.0


From 2291d672afa8a59d08fd6dad3a0357c7cf8e787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 23/43] fix: answer all FROM-less SELECT statements without
 reading tables

---
 mysql_mimic/session.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 32afd2e..2346c90 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -475,16 +475,33 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if isinstance(q.expression, exp.Select) and not any(
-            q.expression.args.get(a)
-            for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+        if (
+            isinstance(q.expression, exp.Select)
+            and not any(
+                q.expression.args.get(a)
+                for a in set(exp.Select.arg_types)
+                - {
+                    "expressions",
+                    "limit",
+                    "hint",
+                    "with",
+                    "distinct",
+                    "where",
+                    "having",
+                    "order",
+                }
+            )
+            and not q.expression.find(exp.From)
         ):
+            # There is only a single row
+            q.expression.set("order", None)
             result = execute(q.expression)
             return result.rows, result.columns
         return await q.next()
 
     async def _set_middleware(self, q: Query) -> AllowedResult:
         """Intercept SET statements"""
+        self._raise_if_unsupported(q.expression, "SET")
         if isinstance(q.expression, exp.Set):
             expressions = q.expression.expressions
             for item in expressions:
-- 
2.43.0


From 9f6c102bcd3f6d757d9e3fdda7fc6696e238d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 24/43] fix: never pass SET and SHOW statements on to the
 application

---
 mysql_mimic/session.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 2346c90..b87ce38 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -373,6 +373,7 @@ class Session(BaseSession):
 
     async def _show_middleware(self, q: Query) -> AllowedResult:
         """Intercept SHOW statements"""
+        self._raise_if_unsupported(q.expression, "SHOW")
         if isinstance(q.expression, exp.Show):
             return await self._show(q.expression)
         return await q.next()
@@ -526,6 +527,17 @@ class Session(BaseSession):
             return [], []
         return await q.next()
 
+    def _raise_if_unsupported(self, expression: exp.Expression, command: str) -> None:
+        """Raise an error for session-control statements that couldn't be parsed"""
+        if (
+            isinstance(expression, exp.Command)
+            and str(expression.this).upper() == command
+        ):
+            raise MysqlError(
+                f"Unsupported {command} statement: {expression.sql()}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
+
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
         dbs = [db or self.database or "" for db in find_dbs(q.expression)]
-- 
2.43.0


From 4ee392289755c0cead2736e1c9f476ec57817d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 25/43] fix: encode negative durations and durations of a day
 or more

---
 mysql_mimic/results.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9716207..6743dde 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -249,11 +249,13 @@ def _binary_encode_double(col: ResultColumn, val: Any) -> bytes:
 
 
 def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
-    days = abs(val.days)
-    hours, remainder = divmod(abs(val.seconds), 3600)
+    # Python only normalizes the sign of the days
+    is_negative = val < timedelta(0)
+    val = abs(val)
+    days = val.days
+    hours, remainder = divmod(val.seconds, 3600)
     minutes, seconds = divmod(remainder, 60)
     microseconds = val.microseconds
-    is_negative = val.total_seconds() < 0
 
     if microseconds == 0:
         if days == hours == minutes == seconds == 0:
@@ -295,6 +297,20 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    if not isinstance(val, timedelta):
+        return _text_encode_str(col, val)
+
+    sign = "-" if val < timedelta(0) else ""
+    val = abs(val)
+    minutes, seconds = divmod(val.days * 86400 + val.seconds, 60)
+    hours, minutes = divmod(minutes, 60)
+    text = f"{sign}{hours:02}:{minutes:02}:{seconds:02}"
+    if val.microseconds:
+        text = f"{text}.{val.microseconds:06}"
+    return _text_encode_str(col, text)
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -330,7 +346,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.LONGLONG: _text_encode_str,
     ColumnType.INT24: _text_encode_str,
     ColumnType.DATE: _text_encode_str,
-    ColumnType.TIME: _text_encode_str,
+    ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
     ColumnType.YEAR: _text_encode_str,
     ColumnType.NEWDATE: _text_encode_str,
-- 
2.43.0


From 45c6f1a2647a15faa2e1c5ee92d1523baff35855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 26/43] fix: encode the value of TINY columns in the binary
 protocol, and of BOOL columns in the text protocol

---
 mysql_mimic/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 6743dde..bde79d0 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -165,7 +165,7 @@ async def _ensure_result_cols(
 
 
 def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
-    return uint_1(int(bool(val)))
+    return struct.pack("<b", int(val))
 
 
 def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
@@ -357,7 +357,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _text_encode_tiny,
     ColumnType.JSON: _text_encode_str,
     ColumnType.NEWDECIMAL: _text_encode_str,
     ColumnType.ENUM: _text_encode_str,
-- 
2.43.0


From 8562bb1812831e6a1fcce789255b716648109e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 27/43] fix: encode booleans in numeric columns as numbers

---
 mysql_mimic/results.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index bde79d0..dc5e6dd 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -297,6 +297,10 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
+    return _text_encode_str(col, int(val) if isinstance(val, bool) else val)
+
+
 def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
     if not isinstance(val, timedelta):
         return _text_encode_str(col, val)
@@ -337,18 +341,18 @@ _PY_TO_MYSQL_TYPE = {
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.DECIMAL: _text_encode_str,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_str,
-    ColumnType.LONG: _text_encode_str,
-    ColumnType.FLOAT: _text_encode_str,
-    ColumnType.DOUBLE: _text_encode_str,
+    ColumnType.SHORT: _text_encode_number,
+    ColumnType.LONG: _text_encode_number,
+    ColumnType.FLOAT: _text_encode_number,
+    ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_str,
-    ColumnType.INT24: _text_encode_str,
+    ColumnType.LONGLONG: _text_encode_number,
+    ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_str,
+    ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_str,
-- 
2.43.0


From 768565d8dafca4a6ef4c81eaadb474638013d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 28/43] fix: infer the type of columns with duplicate names

---
 mysql_mimic/results.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index dc5e6dd..c6267dc 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -105,7 +105,7 @@ async def _ensure_result_cols(
 ) -> ResultSet:
     # Which columns need to be inferred?
     remaining = {
-        col: i for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
+        i: col for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
     }
 
     if not remaining:
@@ -132,7 +132,7 @@ async def _ensure_result_cols(
         peeks.append(peek)
 
         inferred = []
-        for name, i in remaining.items():
+        for i, name in remaining.items():
             value = peek[i]
             if value is not None:
                 type_ = infer_type(value)
@@ -140,13 +140,13 @@ async def _ensure_result_cols(
                     name=str(name),
                     type=type_,
                 )
-                inferred.append(name)
+                inferred.append(i)
 
-        for name in inferred:
-            remaining.pop(name)
+        for i in inferred:
+            remaining.pop(i)
 
     # If we failed to find a non-null value, set the type to NULL
-    for name, i in remaining.items():
+    for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
             type=ColumnType.NULL,
-- 
2.43.0


From 1bed21b182d4656b5a268f3ba68d43af23ab8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 29/43] fix: accept any async iterable as a row source

---
 mysql_mimic/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 54d4970..b1f7537 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -1,9 +1,8 @@
 from __future__ import annotations
 
 import asyncio
-import inspect
 import sys
-from collections.abc import Iterator
+from collections.abc import AsyncIterable as AsyncIterable_, Iterator
 import random
 from typing import List, TypeVar, AsyncIterable, Iterable, AsyncIterator, cast
 import string
@@ -121,7 +120,7 @@ def dict_depth(d: dict) -> int:
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
     """Iterate either an async iterable or a regular iterable"""
-    if inspect.isasyncgen(iterable):
+    if isinstance(iterable, AsyncIterable_):
         async for item in iterable:
             yield item
     else:
-- 
2.43.0


From cbe9a9fe26035c2618061c7cfdc4647d666edd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 30/43] fix: bind parameters of prepared statements as data

Placeholders are found by a tokenizer which knows about escapes and comments,
and values are put in as escaped literals which aren't scanned again.
---
 mysql_mimic/connection.py |  4 ++--
 mysql_mimic/packets.py    | 21 +++++++++++++----
 mysql_mimic/prepared.py   | 48 ++++++++++++++++++++++++++++++++++++---
 3 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 299adfd..0314e01 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -21,7 +21,7 @@ from mysql_mimic.packets import (
     parse_com_field_list,
     make_column_definition_41,
 )
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_placeholders
 from mysql_mimic.results import ensure_result_set, ResultSet
 from mysql_mimic import types, packets, context
 from mysql_mimic.schema import com_field_list_to_show_statement
@@ -501,7 +501,7 @@ class Connection:
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
-        num_params = len(REGEX_PARAM.findall(sql))
+        num_params = len(find_placeholders(sql))
 
         stmt = PreparedStatement(
             stmt_id=stmt_id,
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index ff9a211..8abf6ce 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -1,11 +1,12 @@
 import io
+import math
 from dataclasses import dataclass, field
 from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
 from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, replace_placeholders
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
     Capabilities,
@@ -522,6 +523,12 @@ def _interpolate_params(
         if Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities:
             parameter_count = read_uint_len(reader)
 
+    if parameter_count < stmt.num_params:
+        raise MysqlError(
+            f"Statement has {stmt.num_params} parameters, got {parameter_count}",
+            ErrorCode.MALFORMED_PACKET,
+        )
+
     if parameter_count > 0:
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
@@ -529,9 +536,10 @@ def _interpolate_params(
             capabilities, client_charset, reader, parameter_count, stmt.param_buffers
         )
 
-        for _, value in params[: stmt.num_params]:
-            sql = REGEX_PARAM.sub(_encode_param_as_sql(value), sql, 1)
-
+        sql = replace_placeholders(
+            sql,
+            [_encode_param_as_sql(value) for _, value in params[: stmt.num_params]],
+        )
         query_attrs = {k: v for k, v in params[stmt.num_params :] if k is not None}
 
     return sql, query_attrs
@@ -539,13 +547,16 @@ def _interpolate_params(
 
 def _encode_param_as_sql(param: Any) -> str:
     if isinstance(param, str):
-        return f"'{param}'"
+        escaped = param.replace("\\", "\\\\").replace("'", "''")
+        return f"'{escaped}'"
     if param is None:
         return "NULL"
     if param is True:
         return "TRUE"
     if param is False:
         return "FALSE"
+    if isinstance(param, float) and not math.isfinite(param):
+        raise MysqlError(f"Unsupported parameter value: {param}")
     return str(param)
 
 
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 15867c4..92b232c 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,9 +1,24 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterator
+from typing import Optional, Dict, AsyncIterator, List, Sequence
 
-# Borrowed from mysql-connector-python
-REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
+# Quoted strings, quoted identifiers and comments, which can't contain placeholders, and placeholders.
+# This never backtracks, so it takes linear time.
+_REGEX_TOKEN = re.compile(
+    r"""
+      '(?:[^'\\]|\\.)*'?
+    | "(?:[^"\\]|\\.)*"?
+    | `[^`]*`?
+    | --(?=[\x00-\x20]|\Z)[^\n]*
+    | \#[^\n]*
+    | /\*.*?(?:\*/|\Z)
+    | \?
+    """,
+    re.DOTALL | re.VERBOSE,
+)
+
+# Characters which could form a single token together with a literal next to them
+_REGEX_GLUE = re.compile(r"""[\w$@.?'"`]""")
 
 
 @dataclass
@@ -13,3 +28,30 @@ class PreparedStatement:
     num_params: int
     param_buffers: Optional[Dict[int, bytearray]] = None
     cursor: Optional[AsyncIterator[bytes]] = None
+
+
+def find_placeholders(sql: str) -> List[int]:
+    """Find the positions of all placeholders in the text of a prepared statement"""
+    return [m.start() for m in _REGEX_TOKEN.finditer(sql) if m.group() == "?"]
+
+
+def replace_placeholders(sql: str, literals: Sequence[str]) -> str:
+    """Replace the placeholders of a prepared statement, one by one, with SQL literals"""
+    parts = []
+    end = 0
+
+    for start, literal in zip(find_placeholders(sql), literals):
+        before = sql[max(start - 1, 0) : start]
+        after = sql[start + 1 : start + 2]
+
+        parts.append(sql[end:start])
+        # "5-?" isn't supposed to become the comment "5--1"
+        if _REGEX_GLUE.match(before) or (before == "-" and literal.startswith("-")):
+            parts.append(" ")
+        parts.append(literal)
+        if _REGEX_GLUE.match(after):
+            parts.append(" ")
+        end = start + 1
+
+    parts.append(sql[end:])
+    return "".join(parts)
-- 
2.43.0


From 2db419cabe572c10dca9451ee0424519604b2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 31/43] fix: reject strings which end before their terminator
 or length says

Looking for a missing terminator never came to an end.
---
 mysql_mimic/types.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 81b2e67..82ec714 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -308,16 +308,19 @@ def read_uint_len(reader: io.BytesIO) -> int:
 
 
 def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
-    return reader.read(l)
+    data = reader.read(l)
+    if len(data) < l:
+        raise ValueError(f"Expected {l} bytes, got {len(data)}")
+    return data
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-    data = b""
-    while True:
-        b = reader.read(1)
-        if b == b"\x00":
-            return data
-        data += b
+    pos = reader.tell()
+    data, terminator, _ = reader.read().partition(b"\x00")
+    if not terminator:
+        raise ValueError("Missing terminator of string")
+    reader.seek(pos + len(data) + 1)
+    return data
 
 
 def read_str_len(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From 9aa80708f5f1f5981678082ac65ab01444ec7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 32/43] fix: match LIKE patterns against the whole value

The only special characters of a pattern are % and _ and the escape character.
This also applies to LIKE in queries that are answered by the library, and no
pattern can take exponential time anymore.
---
 mysql_mimic/schema.py  | 59 +++++++++++++++++++++++++++++++++++++-----
 mysql_mimic/session.py | 10 +++----
 2 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 5d7f587..1f9de5c 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -1,13 +1,16 @@
 from __future__ import annotations
 
-import re
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
 from typing import Any, Optional, List, Dict, Iterable
 
-from sqlglot.executor import Table, execute
 from sqlglot import expressions as exp
+from sqlglot.executor import Table, ensure_tables
+from sqlglot.executor.env import null_if_any
+from sqlglot.executor.python import Python, PythonExecutor
+from sqlglot.optimizer import optimize
+from sqlglot.planner import Plan
 
 from mysql_mimic.constants import INFO_SCHEMA
 from mysql_mimic.results import AllowedResult
@@ -264,10 +267,54 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     return show.sql(dialect="mysql")
 
 
-def like_to_regex(like: str) -> re.Pattern:
-    like = like.replace("%", ".*?")
-    like = like.replace("_", ".")
-    return re.compile(like)
+def like_matches(value: str, pattern: str) -> bool:
+    """
+    Does the whole value match a SQL LIKE pattern?
+
+    Takes at most len(value) * len(pattern) steps, whatever the pattern.
+    """
+    i = j = 0
+    # Where to continue if the characters after the last "%" don't match
+    retry = None
+
+    while i < len(value) or j < len(pattern):
+        if j < len(pattern) and pattern[j] == "%":
+            j += 1
+            retry = (i, j)
+            continue
+
+        if i < len(value) and j < len(pattern):
+            if pattern[j] == "\\" and j + 1 < len(pattern):
+                width, matches = 2, value[i] == pattern[j + 1]
+            else:
+                width, matches = 1, pattern[j] in ("_", value[i])
+            if matches:
+                i += 1
+                j += width
+                continue
+
+        if retry is None or retry[0] >= len(value):
+            return False
+
+        # Let "%" match one more character
+        i, j = retry[0] + 1, retry[1]
+        retry = (i, j)
+
+    return True
+
+
+def execute(
+    expression: exp.Expression,
+    schema: Optional[dict] = None,
+    tables: Optional[Dict[str, Dict[str, Table]]] = None,
+) -> Table:
+    """Execute a query the way MySQL does, unlike `sqlglot.executor.execute`"""
+    optimized = optimize(expression, schema or {}, leave_tables_isolated=True)
+    executor = PythonExecutor(
+        env={"LIKE": null_if_any(lambda this, e: like_matches(str(this), str(e)))},
+        tables=ensure_tables(tables),
+    )
+    return executor.execute(Plan(optimized))
 
 
 class BaseInfoSchema:
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index b87ce38..af3634d 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -16,7 +16,6 @@ from typing import (
 from sqlglot import Dialect
 from sqlglot.dialects import MySQL
 from sqlglot import expressions as exp
-from sqlglot.executor import execute
 
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
@@ -28,7 +27,8 @@ from mysql_mimic.intercept import (
 )
 from mysql_mimic.schema import (
     show_statement_to_info_schema_query,
-    like_to_regex,
+    like_matches,
+    execute,
     BaseInfoSchema,
     ensure_info_schema,
 )
@@ -610,9 +610,9 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        like = show.text("like")
-        if like:
-            rows = [(k, v) for k, v in rows if like_to_regex(like).match(k)]
+        pattern = show.text("like")
+        if pattern:
+            rows = [(k, v) for k, v in rows if like_matches(k, pattern)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From 2a5fb9d8f835aec252e6a2f9a6c6e758315d2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 33/43] fix: pass names and patterns of SHOW statements on
 unchanged

---
 mysql_mimic/schema.py  | 22 +++++++++++-----------
 mysql_mimic/session.py |  6 +++---
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 1f9de5c..2a63272 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -189,14 +189,14 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.columns")
-            .where(f"table_name = '{table}'")
+            .where(exp.column("table_name").eq(exp.Literal.string(table)))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
+            select = select.where(exp.column("table_schema").eq(exp.Literal.string(db)))
+        like = show.args.get("like")
         if like:
-            select = select.where(f"column_name LIKE '{like}'")
+            select = select.where(exp.column("column_name").like(like.copy()))
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -206,17 +206,17 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
+        select = select.where(exp.column("table_schema").eq(exp.Literal.string(db)))
+        like = show.args.get("like")
         if like:
-            select = select.where(f"table_name LIKE '{like}'")
+            select = select.where(exp.column("table_name").like(like.copy()))
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
-        like = show.text("like")
+        like = show.args.get("like")
         if like:
-            select = select.where(f"schema_name LIKE '{like}'")
+            select = select.where(exp.column("schema_name").like(like.copy()))
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -244,11 +244,11 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.statistics")
-            .where(f"table_name = '{table}'")
+            .where(exp.column("table_name").eq(exp.Literal.string(table)))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(exp.column("table_schema").eq(exp.Literal.string(db)))
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index af3634d..2c085d9 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -610,9 +610,9 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        pattern = show.text("like")
-        if pattern:
-            rows = [(k, v) for k, v in rows if like_matches(k, pattern)]
+        like = show.args.get("like")
+        if like:
+            rows = [(k, v) for k, v in rows if like_matches(k, like.name)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From 66a5dfd39e95114840d46c15479d294bee58c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 34/43] fix: don't mistake databases for tables if the first
 one is empty

---
 mysql_mimic/utils.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index b1f7537..2487f91 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import asyncio
 import sys
-from collections.abc import AsyncIterable as AsyncIterable_, Iterator
+from collections.abc import AsyncIterable as AsyncIterable_, Iterator, Mapping
 import random
 from typing import List, TypeVar, AsyncIterable, Iterable, AsyncIterator, cast
 import string
@@ -91,7 +91,7 @@ def find_dbs(expression: exp.Expression) -> List[str]:
 
 def dict_depth(d: dict) -> int:
     """
-    Get the nesting depth of a dictionary.
+    Get the maximum nesting depth of a dictionary.
     For example:
         >>> dict_depth(None)
         0
@@ -103,19 +103,16 @@ def dict_depth(d: dict) -> int:
         2
         >>> dict_depth({"a": {"b": {}}})
         3
+        >>> dict_depth({"a": {}, "b": {"c": {}}})
+        3
     Args:
         d (dict): dictionary
     Returns:
         int: depth
     """
-    try:
-        return 1 + dict_depth(next(iter(d.values())))
-    except AttributeError:
-        # d doesn't have attribute "values"
+    if not isinstance(d, Mapping):
         return 0
-    except StopIteration:
-        # d.values() returns an empty sequence
-        return 1
+    return 1 + max((dict_depth(v) for v in d.values()), default=0)
 
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
-- 
2.43.0


From 0468ab00c9faca529719d19d03e4e0a60301d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 35/43] fix: list databases without tables and tables without
 columns

---
 mysql_mimic/schema.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 2a63272..0d0e4bf 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -31,11 +31,11 @@ class Column:
     catalog: Optional[str] = "def"
 
 
-def mapping_to_columns(schema: dict) -> List[Column]:
-    """Convert a schema mapping into a list of Column instances"""
+def _add_levels(schema: dict) -> dict:
+    """Add the levels that may be omitted from a schema mapping"""
     depth = dict_depth(schema)
     if depth < 2:
-        return []
+        return {}
     if depth == 2:
         # {table: {col: type}}
         schema = {"": schema}
@@ -46,9 +46,13 @@ def mapping_to_columns(schema: dict) -> List[Column]:
         depth += 1
     if depth != 4:
         raise MysqlError("Invalid schema mapping")
+    return schema
 
+
+def mapping_to_columns(schema: dict) -> List[Column]:
+    """Convert a schema mapping into a list of Column instances"""
     result = []
-    for catalog, dbs in schema.items():
+    for catalog, dbs in _add_levels(schema).items():
         for db, tables in dbs.items():
             for table, cols in tables.items():
                 for column, coltype in cols.items():
@@ -65,10 +69,14 @@ def mapping_to_columns(schema: dict) -> List[Column]:
     return result
 
 
-def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]:
+def info_schema_tables(
+    columns: Iterable[Column], schema: Optional[dict] = None
+) -> Dict[str, Dict[str, Table]]:
     """
     Convert a list of Column instances into a mapping of SQLGlot Tables.
 
+    Databases without tables and tables without columns are taken from the schema mapping.
+
     These Tables are used by SQLGlot to execute INFORMATION_SCHEMA queries.
     """
     ordinal_positions: dict[Any, int] = defaultdict(lambda: 0)
@@ -82,6 +90,11 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
     dbs = set()
     catalogs = set()
 
+    for catalog, mapping in _add_levels(schema or {}).items():
+        for db in mapping:
+            dbs.add((catalog, db))
+            tables.update((catalog, db, table) for table in mapping[db])
+
     info_schema_cols = mapping_to_columns(INFO_SCHEMA)
 
     for column in chain(columns, info_schema_cols):
@@ -341,7 +354,7 @@ class InfoSchema(BaseInfoSchema):
     @classmethod
     def from_mapping(cls, mapping: dict) -> InfoSchema:
         columns = mapping_to_columns(mapping)
-        return cls(info_schema_tables(columns))
+        return cls(info_schema_tables(columns, mapping))
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
         return expression.transform(_remove_collate)
-- 
2.43.0


From d94ba27ffecef0b433e33ad97da3b55ff91e7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 36/43] fix: serve other clients while looking for the type of
 a column

---
 mysql_mimic/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index c6267dc..335b15d 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -20,7 +20,7 @@ from typing import (
 from mysql_mimic.errors import MysqlError
 from mysql_mimic.types import ColumnType, str_len, uint_1, uint_2, uint_4
 from mysql_mimic.charset import CharacterSet
-from mysql_mimic.utils import aiterate
+from mysql_mimic.utils import aiterate, cooperative_iterate
 
 Encoder = Callable[[Any, "ResultColumn"], bytes]
 
@@ -117,7 +117,7 @@ async def _ensure_result_cols(
     # Copy the columns
     columns = list(columns)
 
-    arows = aiterate(rows)
+    arows = cooperative_iterate(aiterate(rows))
 
     # Keep track of rows we've consumed from the iterator so we can add them back
     peeks = []
-- 
2.43.0


From a2faf95f3a0020406d183ffa19a302ab1895da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:37 +0000
Subject: [PATCH 37/43] fix: latin1 is windows-1252

MySQL's latin1 has the euro sign and the typographic quotes at 0x80-0x9f.
---
 mysql_mimic/charset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 7934df1..197694a 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -9,6 +9,7 @@ _CODECS = {
     "hp8": "hp_roman8",
     "koi8r": "koi8_r",
     "koi8u": "koi8_u",
+    "latin1": "cp1252",
     "ucs2": "utf_16_be",
     "macce": "mac_latin2",
     "utf16": "utf_16_be",
-- 
2.43.0


From 1c3dd091536a4dc958cbf61da16fdd54d1c05312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 38/43] fix: don't wait after the last packet of a cursor's
 response

A KILL QUERY arriving meanwhile would add an ERR packet to a response which is already complete.
---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 0314e01..1f6f6b0 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -580,7 +580,8 @@ class Connection:
         if com_stmt_execute.use_cursor:
             com_stmt_execute.stmt.cursor = rows
             await self.stream.write(
-                self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS)
+                self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS),
+                drain=False,
             )
         else:
             if not self.deprecate_eof():
-- 
2.43.0


From 123043662b93d478a2b752cdd3fd8f62963154d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 39/43] fix: answer FROM-less SELECT statements with GROUP BY,
 OFFSET, INTO or locks

---
 mysql_mimic/session.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 2c085d9..b765887 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -476,28 +476,19 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if (
-            isinstance(q.expression, exp.Select)
-            and not any(
-                q.expression.args.get(a)
-                for a in set(exp.Select.arg_types)
-                - {
-                    "expressions",
-                    "limit",
-                    "hint",
-                    "with",
-                    "distinct",
-                    "where",
-                    "having",
-                    "order",
-                }
-            )
-            and not q.expression.find(exp.From)
-        ):
+        if isinstance(q.expression, exp.Select) and not q.expression.find(exp.From):
+            if q.expression.args.get("into"):
+                raise MysqlError(
+                    "SELECT INTO not supported yet",
+                    code=ErrorCode.NOT_SUPPORTED_YET,
+                )
             # There is only a single row
-            q.expression.set("order", None)
+            for arg in ("group", "order", "locks"):
+                q.expression.set(arg, None)
             result = execute(q.expression)
-            return result.rows, result.columns
+            offset = q.expression.args.get("offset")
+            skip = int(offset.expression.name) if offset else 0
+            return result.rows[skip:], result.columns
         return await q.next()
 
     async def _set_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From bd4e14d1e2cf61b0bb96a8e2d3c135229126a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 40/43] fix: don't pass comments after a semicolon on to the
 application

---
 mysql_mimic/session.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index b765887..d857e0e 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -305,7 +305,12 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in self.dialect().parse(sql) if e]
+        # Comments after a semicolon are parsed as a statement
+        return [
+            e
+            for e in self.dialect().parse(sql)
+            if e and not isinstance(e, getattr(exp, "Semicolon", ()))
+        ]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
-- 
2.43.0


From 5f86172ad64cc9e4b8d2f5f9eab11e650214adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 41/43] fix: recognize SET_VAR hints and SET NAMES DEFAULT in
 any case

---
 mysql_mimic/session.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index d857e0e..cc194c4 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -328,7 +328,7 @@ class Session(BaseSession):
             set_var_hint = None
 
             for e in hint.expressions:
-                if isinstance(e, exp.Func) and e.name == "SET_VAR":
+                if isinstance(e, exp.Func) and e.name.upper() == "SET_VAR":
                     set_var_hint = e
                     for eq in e.expressions:
                         assignments[eq.left.name] = expression_to_value(eq.right)
@@ -571,7 +571,7 @@ class Session(BaseSession):
     def _set_charset(self, item: exp.SetItem) -> None:
         charset_name: Any
         charset_conn: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             charset_conn = DEFAULT
         else:
@@ -584,7 +584,7 @@ class Session(BaseSession):
     def _set_names(self, item: exp.SetItem) -> None:
         charset_name: Any
         collation_name: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-- 
2.43.0


From afcae81265fc6f248351c53631e7bd0dd0eab2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 42/43] fix: infer DECIMAL for integers that don't fit a BIGINT

---
 mysql_mimic/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 335b15d..4a2523a 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -414,6 +414,9 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
 
 
 def infer_type(val: Any) -> ColumnType:
+    if isinstance(val, int) and not -(2**63) <= val < 2**63:
+        # Doesn't fit a BIGINT
+        return ColumnType.NEWDECIMAL
     for py_type, my_type in _PY_TO_MYSQL_TYPE.items():
         if isinstance(val, py_type):
             return my_type
-- 
2.43.0


From 1698bb64e7bbe161efe05c998e21d024d00fc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 43/43] fix: don't reuse long data after an execution that
 failed to parse

---
 mysql_mimic/connection.py | 1 -
 mysql_mimic/packets.py    | 7 +++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 1f6f6b0..fdf7c8d 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -544,7 +544,6 @@ class Connection:
             get_stmt=self.get_stmt,
         )
 
-        com_stmt_execute.stmt.param_buffers = None
         com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 8abf6ce..7a1032b 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -427,10 +427,12 @@ def parse_com_stmt_execute(
     r = io.BytesIO(data)
     stmt_id = read_uint_4(r)
     stmt = get_stmt(stmt_id)
+    # Long data is meant for this execution only, even if it fails
+    param_buffers, stmt.param_buffers = stmt.param_buffers, None
     use_cursor, param_count_available = _read_cursor_flags(r)
     read_uint_4(r)  # iteration count. Always 1.
     sql, query_attrs = _interpolate_params(
-        capabilities, client_charset, r, stmt, param_count_available
+        capabilities, client_charset, r, stmt, param_count_available, param_buffers
     )
     return ComStmtExecute(
         sql=sql,
@@ -512,6 +514,7 @@ def _interpolate_params(
     reader: io.BytesIO,
     stmt: PreparedStatement,
     param_count_available: bool,
+    param_buffers: Optional[Dict[int, bytearray]],
 ) -> Tuple[str, Dict[str, str]]:
     sql = stmt.sql
     query_attrs = {}
@@ -533,7 +536,7 @@ def _interpolate_params(
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
         params = _read_params(
-            capabilities, client_charset, reader, parameter_count, stmt.param_buffers
+            capabilities, client_charset, reader, parameter_count, param_buffers
         )
 
         sql = replace_placeholders(
-- 
2.43.0

