From ab9c4ceee83f5926fd895c015a2c774da88f2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:55 +0000
Subject: [PATCH 01/60] fix: SELECT on one connection changed the database of
 every connection

---
 server/handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index 017598f..cb77925 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -29,6 +29,9 @@ func NewManager(config *config.Config) *Manager {
 }
 
 func (m *Manager) Handle(conn net.Conn) {
+	// every connection starts in database 0 and has its own selection
+	session := &Manager{db: m.dbs[0], dbs: m.dbs}
+
 	// parse conn
 	ch := resp.ParseStream(conn)
 
@@ -67,7 +70,7 @@ func (m *Manager) Handle(conn net.Conn) {
 
 		// excute parsed command
 		cmd := arrayData.ToCommand()
-		redisData := m.ExecCommand(cmd)
+		redisData := session.ExecCommand(cmd)
 
 		// write result to connection
 		if redisData != nil {
-- 
2.43.0


From 49f9a58574d2a16cd12ad666651715c27f1a44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:56 +0000
Subject: [PATCH 02/60] fix: SELECT out of range answered with a status instead
 of an error

---
 server/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index cb77925..d8f567a 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -114,7 +114,7 @@ func (m *Manager) Select(cmd [][]byte) resp.RedisData {
 	}
 
 	if dbIdx >= len(m.dbs) || dbIdx < 0 {
-		return resp.NewSimpleString(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
+		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
 	}
 
 	m.db = m.dbs[dbIdx]
-- 
2.43.0


From ba67bad7b65b0cc4fc884760d489c02acb88c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 03/60] fix: a lone newline, an empty line or an unknown type
 byte crashed the server

---
 resp/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 88efef6..030ffaf 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -142,7 +142,7 @@ func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 		if err != nil {
 			return nil, err
 		}
-		if len(msg) == 0 || msg[len(msg)-2] != '\r' {
+		if len(msg) < 2 || msg[len(msg)-2] != '\r' {
 			return nil, errors.New("Protocol error: stream msg invalid")
 		}
 	}
@@ -150,6 +150,9 @@ func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 }
 
 func parseSingleLine(msg []byte) (RedisData, error) {
+	if len(msg) < 3 {
+		return nil, errors.New("Protocol error: empty line")
+	}
 	msgType := msg[0]
 	// read header; discard flag and "\r\n"
 	msgData := string(msg[1 : len(msg)-2])
@@ -166,6 +169,8 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 			return nil, err
 		}
 		data = NewInteger(integerData)
+	default:
+		return nil, errors.New("Protocol error: unknown type " + strconv.Quote(string(msgType)))
 	}
 
 	return data, nil
-- 
2.43.0


From 14e39d18a2b03491a1cb64b66603578a9259a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:58 +0000
Subject: [PATCH 04/60] fix: an absurd bulk length in a header crashed the
 server

---
 resp/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 030ffaf..974f73f 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -8,6 +8,9 @@ import (
 	"strconv"
 )
 
+// longest accepted bulk string, as in Redis (proto-max-bulk-len)
+const maxBulkLen = 512 << 20
+
 type RedisResp struct {
 	Data RedisData
 	Err  error
@@ -179,7 +182,7 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
-	if stringLen < -1 || err != nil {
+	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
 		return errors.New("Protocol error: " + string(msg))
 	}
 
-- 
2.43.0


From dc4e303385ae389a38f456b815a9c57999efb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:59 +0000
Subject: [PATCH 05/60] fix: an empty array sent as a command crashed the
 server

---
 server/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index d8f567a..8e901da 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -70,6 +70,9 @@ func (m *Manager) Handle(conn net.Conn) {
 
 		// excute parsed command
 		cmd := arrayData.ToCommand()
+		if len(cmd) == 0 {
+			continue
+		}
 		redisData := session.ExecCommand(cmd)
 
 		// write result to connection
-- 
2.43.0


From 079fb81de30f118389725287fa35a341ec6f57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:00 +0000
Subject: [PATCH 06/60] fix: a null bulk string was accepted as a command
 argument and stored as a value that reads as missing

---
 server/handler.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index 8e901da..1ca5893 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -73,7 +73,12 @@ func (m *Manager) Handle(conn net.Conn) {
 		if len(cmd) == 0 {
 			continue
 		}
-		redisData := session.ExecCommand(cmd)
+		var redisData resp.RedisData
+		if hasNull(cmd) {
+			redisData = resp.NewSimpleError("Protocol error: null bulk string in command")
+		} else {
+			redisData = session.ExecCommand(cmd)
+		}
 
 		// write result to connection
 		if redisData != nil {
@@ -91,6 +96,15 @@ func (m *Manager) Handle(conn net.Conn) {
 	}
 }
 
+func hasNull(cmd [][]byte) bool {
+	for _, arg := range cmd {
+		if arg == nil {
+			return true
+		}
+	}
+	return false
+}
+
 func (m *Manager) ExecCommand(cmd [][]byte) resp.RedisData {
 	cmdName := strings.ToLower(string((cmd[0])))
 	command, ok := memdb.CmdTable[cmdName]
-- 
2.43.0


From 1947474211a2d023a2c2a2fa22b3d3e4f68bef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:49 +0000
Subject: [PATCH 07/60] fix: the parser goroutine of a connection ended by a
 protocol or read error was never released

---
 resp/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index 974f73f..32af109 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -45,8 +45,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 			}
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 		// make redis data
 		if buf.multiLine {
@@ -62,7 +62,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.stringLen == -1 { // null bulk string
 						if buf.inArray { // Null elements in arrays; ["hello",nil,"world"]
@@ -88,7 +89,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
@@ -107,8 +109,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		if err != nil {
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 
 		// send redis data
-- 
2.43.0


From 69310be06693b20dc5ef1d45d742e399eca98ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:50 +0000
Subject: [PATCH 08/60] fix: a connection whose reply could not be written was
 kept, going on with a gap in its replies

---
 server/handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 1ca5893..f92b48a 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -41,6 +41,9 @@ func (m *Manager) Handle(conn net.Conn) {
 		if err != nil {
 			logger.Error(err)
 		}
+		// let the parser finish
+		for range ch {
+		}
 	}()
 
 	// read from client and pump redis to ch
@@ -85,12 +88,14 @@ func (m *Manager) Handle(conn net.Conn) {
 			_, err := conn.Write(redisData.ToRedisFormat())
 			if err != nil {
 				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
+				return
 			}
 		} else {
 			errData := resp.NewSimpleError("unknown error")
 			_, err := conn.Write(errData.ToRedisFormat())
 			if err != nil {
 				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
+				return
 			}
 		}
 	}
-- 
2.43.0


From ff2f385050d2e00322f96a347cd3d69f3f035d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:51 +0000
Subject: [PATCH 09/60] fix: CR and LF in a command name or option were echoed
 into error replies and split them

---
 resp/data.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resp/data.go b/resp/data.go
index 65b99da..1104147 100644
--- a/resp/data.go
+++ b/resp/data.go
@@ -44,6 +44,11 @@ type RedisArray struct {
 	data []RedisData // [SimpleString("OK"), SimpleError("ERROR"), Integer(-15), BulkString(bytes("OK"))]
 }
 
+// simple strings and errors end at the first CR or LF, so they can't contain any
+func oneLine(s string) string {
+	return strings.NewReplacer("\r", " ", "\n", " ").Replace(s)
+}
+
 // SimpleString
 func NewSimpleString(data string) *SimpleString {
 	return &SimpleString{
@@ -60,7 +65,7 @@ func (s *SimpleString) GetBytesData() []byte {
 }
 
 func (s *SimpleString) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("+%s%s", s.data, CRLF)) // +OK\r\n
+	return []byte(fmt.Sprintf("+%s%s", oneLine(s.data), CRLF)) // +OK\r\n
 }
 
 func (s *SimpleString) String() string {
@@ -83,7 +88,7 @@ func (e *SimpleError) GetBytesData() []byte {
 }
 
 func (e *SimpleError) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("-%s%s", e.data, CRLF)) // -Error message\r\n
+	return []byte(fmt.Sprintf("-%s%s", oneLine(e.data), CRLF)) // -Error message\r\n
 }
 
 func (e *SimpleError) String() string {
-- 
2.43.0


From 4058941e1bae9ba6ee58f6814c86089e91ac27fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:52 +0000
Subject: [PATCH 10/60] fix: KEYS patterns with * before ? or [ did not match,
 some took exponential time, and an unclosed range crashed

---
 util/util.go | 147 +++++++++++++++++++++++----------------------------
 1 file changed, 65 insertions(+), 82 deletions(-)

diff --git a/util/util.go b/util/util.go
index 2667940..8ead83c 100644
--- a/util/util.go
+++ b/util/util.go
@@ -25,98 +25,81 @@ h[a-b]llo matches hallo and hbllo
 func PattenMatch(pattern, src string) bool {
 	patLen, srcLen := len(pattern), len(src)
 
-	if patLen == 0 {
-		return srcLen == 0
-	}
+	patPos, srcPos := 0, 0
+	// where to go on when a later part doesn't match: behind the last '*',
+	// which then takes one more byte of src
+	starPat, starSrc := -1, 0
+	for {
+		if patPos < patLen && pattern[patPos] == '*' { // h*llo
+			patPos++
+			starPat, starSrc = patPos, srcPos
+			continue
+		}
 
-	if srcLen == 0 {
-		for i := range pattern {
-			if pattern[i] != '*' {
-				return false
-			}
+		// src has been cosumed
+		if srcPos == srcLen {
+			return patPos == patLen
 		}
-		return true
-	}
 
-	patPos, srcPos := 0, 0
-	for patPos < patLen {
-		switch pattern[patPos] {
-		case '?': // h?llo
-			srcPos++
-		case '*': // h*llo
-			for patPos < patLen && pattern[patPos] == '*' {
-				patPos++
-			}
-			if patPos == patLen {
-				return true
-			}
-			for srcPos < srcLen {
-				for srcPos < srcLen && src[srcPos] != pattern[patPos] {
-					srcPos++
-				}
-				if srcPos == srcLen {
-					return patPos == patLen
-				}
-				if PattenMatch(pattern[patPos+1:], src[srcPos+1:]) {
-					return true
-				} else {
-					srcPos++
-				}
+		if patPos < patLen {
+			if next, match := matchByte(pattern, patPos, src[srcPos]); match {
+				patPos = next
+				srcPos++
+				continue
 			}
+		}
+
+		if starPat == -1 {
 			return false
-		case '[':
-			var not, close, match bool
+		}
+		starSrc++
+		patPos, srcPos = starPat, starSrc
+	}
+}
+
+// match one byte against the pattern element at patPos;
+// return the position of the next element and whether it matched
+func matchByte(pattern string, patPos int, c byte) (int, bool) {
+	patLen := len(pattern)
+
+	switch pattern[patPos] {
+	case '?': // h?llo
+		return patPos + 1, true
+	case '[':
+		var not, close, match bool
+		patPos++
+		if patPos == patLen {
+			return patPos, false
+		}
+		if pattern[patPos] == '^' {
+			not = true
 			patPos++
-			if patPos == patLen {
-				return false
-			}
-			if pattern[patPos] == '^' {
-				not = true
-				patPos++
-			}
-			for patPos < patLen {
-				if pattern[patPos] == ']' {
-					close = true
-					break
-				} else if pattern[patPos] == '-' {
-					start, end := pattern[patPos-1], pattern[patPos+1]
-					if src[srcPos] >= start && src[srcPos] <= end {
-						match = true
-					}
-					patPos++
-				} else {
-					if pattern[patPos] == src[srcPos] { //h[ae]llo and h[^e]llo
-						match = true
-					}
+		}
+		for patPos < patLen {
+			if pattern[patPos] == ']' {
+				close = true
+				break
+			} else if pattern[patPos] == '-' && patPos+1 < patLen {
+				start, end := pattern[patPos-1], pattern[patPos+1]
+				if c >= start && c <= end {
+					match = true
 				}
 				patPos++
+			} else {
+				if pattern[patPos] == c { //h[ae]llo and h[^e]llo
+					match = true
+				}
 			}
-			if !close {
-				return false
-			}
-			if not {
-				match = !match
-			}
-			if !match {
-				return false
-			}
-			srcPos++
-		default:
-			if pattern[patPos] != src[srcPos] {
-				return false
-			}
-			srcPos++
+			patPos++
 		}
-		patPos++
-
-		// src has been cosumed
-		if srcPos == srcLen {
-			for patPos < patLen && pattern[patPos] == '*' {
-				patPos++
-			}
-			break
+		if !close {
+			return patPos, false
 		}
+		if not {
+			match = !match
+		}
+		return patPos + 1, match
+	default:
+		return patPos + 1, pattern[patPos] == c
 	}
-
-	return patPos == patLen && srcPos == srcLen
 }
-- 
2.43.0


From 155e8d40dab908e46b05dbaca6a924bb5c15f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:13 +0000
Subject: [PATCH 11/60] fix: reading a config file that ends in a newline or
 blank line never finished

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 00d7d7a..eda212a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -99,6 +99,9 @@ func (conf *Config) ParseConfFile() error {
 		argvs := strings.Fields(line)
 
 		if len(argvs) == 0 {
+			if ioErr == io.EOF {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From 9de4f4f9acf09f8ab5276bf3c8c15a8c4e5aac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:14 +0000
Subject: [PATCH 12/60] fix: a config option without a value crashed instead of
 being reported

---
 config/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index eda212a..32bad04 100644
--- a/config/config.go
+++ b/config/config.go
@@ -105,7 +105,15 @@ func (conf *Config) ParseConfFile() error {
 			continue
 		}
 
-		switch strings.ToLower(argvs[0]) {
+		option := strings.ToLower(argvs[0])
+		switch option {
+		case "host", "port", "logdir", "loglevel", "segnum", "dbnum":
+			if len(argvs) < 2 {
+				return &CfgError{message: fmt.Sprintf("option %s has no value", option)}
+			}
+		}
+
+		switch option {
 		case "host":
 			if ip := net.ParseIP(argvs[1]); ip == nil {
 				return errors.New("given host invaild")
-- 
2.43.0


From 664e8b20b95f57ab5a1822392c970c4f5e855122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:15 +0000
Subject: [PATCH 13/60] fix: a config file that cannot be read was reported as
 success

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 32bad04..b6e857a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -93,7 +93,7 @@ func (conf *Config) ParseConfFile() error {
 	for {
 		line, ioErr := fileReader.ReadString('\n')
 		if ioErr != nil && ioErr != io.EOF {
-			return err
+			return ioErr
 		}
 
 		argvs := strings.Fields(line)
-- 
2.43.0


From d1317630bf23f06e3933b9dd6bafacd08e26b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:16 +0000
Subject: [PATCH 14/60] fix: segnum or dbnum below 1 was accepted and crashed
 the server or exhausted its memory

---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index b6e857a..87b3fe4 100644
--- a/config/config.go
+++ b/config/config.go
@@ -76,6 +76,10 @@ func Init() (*Config, error) {
 		}
 	}
 
+	if _conf.SegNum < 1 || _conf.DbNum < 1 {
+		return nil, &CfgError{message: "segnum and dbnum must be positive"}
+	}
+
 	Conf = _conf
 	return Conf, nil
 }
-- 
2.43.0


From c34b9a0e8961a4d88ec46b8335fa3312f3f44dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:17 +0000
Subject: [PATCH 15/60] fix: the server could not listen on an IPv6 host its
 configuration accepts

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 21518f3..4f07047 100644
--- a/server/server.go
+++ b/server/server.go
@@ -14,7 +14,7 @@ import (
 
 // start a redis server
 func Start(config *config.Config) error {
-	listener, err := net.Listen("tcp", config.Host+":"+strconv.Itoa(config.Port))
+	listener, err := net.Listen("tcp", net.JoinHostPort(config.Host, strconv.Itoa(config.Port)))
 	if err != nil {
 		logger.Panic(err)
 		return err
-- 
2.43.0


From 7e5c4487491c2e311630879b2989c47e35956d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:18 +0000
Subject: [PATCH 16/60] fix: lazy expiry could delete a key that another client
 had just rewritten

---
 memdb/memdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index b450868..ede7be4 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -55,6 +55,10 @@ func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
 		db.locks.Lock(key)
 		defer db.locks.UnLock(key)
+		// the key may have been rewritten while waiting for the lock
+		if !db.CheckExpire(key) {
+			return false
+		}
 		db.dict.Delete(key)
 		db.expires.Delete(key)
 		return true
-- 
2.43.0


From 2c0311ee655d38ca05f90282fad319d2dd49b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:19 +0000
Subject: [PATCH 17/60] fix: KEYS running beside writers could crash or return
 phantom empty keys, the key count being unsynchronised

---
 memdb/concurrentMap.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/memdb/concurrentMap.go b/memdb/concurrentMap.go
index 72cf441..aeffd81 100644
--- a/memdb/concurrentMap.go
+++ b/memdb/concurrentMap.go
@@ -3,14 +3,15 @@ package memdb
 import (
 	"gRedis/util"
 	"sync"
+	"sync/atomic"
 )
 
 const MaxSegSize int = int(1<<32 - 1) // max signed int32
 
 type ConcurrentMap struct {
 	table []*segment
-	size  int // table size
-	count int // key counts
+	size  int   // table size
+	count int64 // key counts
 }
 
 type segment struct {
@@ -52,7 +53,7 @@ func (m *ConcurrentMap) Set(key string, value any) int {
 
 	if _, ok := segment.ht[key]; !ok {
 		added = 1
-		m.count++
+		atomic.AddInt64(&m.count, 1)
 	}
 	segment.ht[key] = value
 	return added
@@ -67,7 +68,7 @@ func (m *ConcurrentMap) Delete(key string) int {
 
 	if _, ok := segment.ht[key]; ok {
 		delete(segment.ht, key)
-		m.count--
+		atomic.AddInt64(&m.count, -1)
 		return 1
 	}
 
@@ -89,7 +90,7 @@ func (m *ConcurrentMap) Size() int {
 }
 
 func (m *ConcurrentMap) Count() int {
-	return m.count
+	return int(atomic.LoadInt64(&m.count))
 }
 
 func (m *ConcurrentMap) Clear() {
@@ -98,13 +99,11 @@ func (m *ConcurrentMap) Clear() {
 
 // 这里拿到的keys有可能有过期的，需要lazy deletion
 func (m *ConcurrentMap) Keys() []string {
-	keys := make([]string, m.count)
-	k := 0
+	keys := make([]string, 0, m.Count())
 	for i := range m.table {
 		m.table[i].rwMu.Lock()
 		for key := range m.table[i].ht {
-			keys[k] = key
-			k++
+			keys = append(keys, key)
 		}
 		m.table[i].rwMu.Unlock()
 	}
-- 
2.43.0


From a5066a00365a8ca731646a3b3b6d0c036374ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 18/60] fix: DEL and EXISTS of several keys were not atomic

---
 memdb/keys.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index ceb418b..46f7fa2 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -24,15 +24,20 @@ func delKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	deleted := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.Lock(key)
-			deleted += db.dict.Delete(key)
-			db.DeleteExpire(key)
-			db.locks.UnLock(key)
-		}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MLock(keys)
+	defer db.locks.MUnLock(keys)
+
+	deleted := 0
+	for _, key := range keys {
+		deleted += db.dict.Delete(key)
+		db.DeleteExpire(key)
 	}
 
 	return resp.NewInteger(int64(deleted))
@@ -43,15 +48,20 @@ func existsKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	existed := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-			if _, ok := db.dict.Get(key); ok {
-				existed++
-			}
-			db.locks.RUnLock(key)
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	existed := 0
+	for _, key := range keys {
+		if _, ok := db.dict.Get(key); ok {
+			existed++
 		}
 	}
 
-- 
2.43.0


From 1631aed4a07786c1060277144407c3b88550e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:45 +0000
Subject: [PATCH 19/60] fix: EXPIRE with a time that overflows deleted the key

---
 memdb/keys.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 46f7fa2..3b4da03 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"gRedis/resp"
 	"gRedis/util"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -103,7 +104,11 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
-	ttl := time.Now().Unix() + v
+	now := time.Now().Unix()
+	if v > math.MaxInt64-now {
+		return resp.NewSimpleError("invalid expire time in 'expire' command")
+	}
+	ttl := now + v
 
 	// get option
 	var option string
-- 
2.43.0


From 7a75a9f487c004163b918a4bff7c67fe50210feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:47 +0000
Subject: [PATCH 20/60] fix: EXPIRE LT was ignored for a key without expiry

---
 memdb/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 3b4da03..9eff1e9 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -138,7 +138,8 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	case "lt":
-		if v, ok := db.expires.Get(key); ok && ttl < v.(int64) {
+		// a key without expiry counts as one that never expires
+		if v, ok := db.expires.Get(key); !ok || ttl < v.(int64) {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-- 
2.43.0


From 9d0d0ab559d7fb7b47e5d54a654a021b86b8f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:48 +0000
Subject: [PATCH 21/60] fix: PERSIST claimed success for a key that is missing
 or has no expiry

---
 memdb/keys.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 9eff1e9..51b4fcd 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -163,9 +163,7 @@ func persistKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
-	db.DeleteExpire(key)
-
-	return resp.NewInteger(int64(1))
+	return resp.NewInteger(int64(db.DeleteExpire(key)))
 }
 
 func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From 80b67969397c13ea8debdc2b710587f1d801356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:49 +0000
Subject: [PATCH 22/60] fix: RENAME made the key it overwrites vanish for a
 moment from a concurrent KEYS

---
 memdb/keys.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 51b4fcd..0f5e100 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -213,12 +213,15 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	oldTTL, ok := db.expires.Get(oldKey)
 
-	db.dict.Delete(oldKey)
-	db.DeleteExpire(oldKey)
+	if oldKey == newKey {
+		return resp.NewSimpleString("OK")
+	}
+
 	// If newkey already exists it is overwritten
-	db.dict.Delete(newKey)
-	db.DeleteExpire(newKey)
 	db.dict.Set(newKey, oldValue)
+	db.DeleteExpire(newKey)
+	db.dict.Delete(oldKey)
+	db.DeleteExpire(oldKey)
 
 	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
 	if ok {
-- 
2.43.0


From 7824bb64d2d6c177353d1798ae3809e5e1adf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:17 +0000
Subject: [PATCH 23/60] fix: SET with EX or PX lacking its value crashed the
 server, and EX accepted a non-number

---
 memdb/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 42a7871..1c4d8f4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -47,18 +47,18 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			exval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-				resp.NewSimpleError("value is not an integer")
+				return resp.NewSimpleError("value is not an integer")
 			}
 		case "px":
 			px = true
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			pxval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-- 
2.43.0


From b9ff9c1d4049cdad500ff67ffb2036d718b755ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:18 +0000
Subject: [PATCH 24/60] fix: SET never accepted EXAT and PXAT

---
 memdb/strings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 1c4d8f4..4776cb4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -67,6 +67,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "exat":
 			exat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
@@ -77,6 +78,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "pxat":
 			pxat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
-- 
2.43.0


From 66ae7c522ef8134041ace079ce4a879b43ca4f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:19 +0000
Subject: [PATCH 25/60] fix: SET and SETEX accepted expire times that are not
 positive or overflow, and stored a value that vanished

---
 memdb/strings.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 4776cb4..99a0656 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -3,6 +3,7 @@ package memdb
 import (
 	"fmt"
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -98,6 +99,13 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("syntax error")
 	}
 
+	now := time.Now()
+	if (ex && (exval <= 0 || exval > math.MaxInt64-now.Unix())) ||
+		(px && (pxval <= 0 || pxval > math.MaxInt64-now.UnixMilli())) ||
+		(exat && exatval <= 0) || (pxat && pxatval <= 0) {
+		return resp.NewSimpleError("invalid expire time in 'set' command")
+	}
+
 	// set
 	var res resp.RedisData
 	db.locks.Lock(key)
@@ -144,7 +152,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	if ex {
-		db.SetExpire(key, time.Now().Unix()+exval)
+		db.SetExpire(key, now.Unix()+exval)
 	}
 	if px {
 		db.SetExpire(key, time.Now().Unix()+pxval/1000)
@@ -356,6 +364,9 @@ func setExString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
+	if sec <= 0 || sec > math.MaxInt64-time.Now().Unix() {
+		return resp.NewSimpleError("invalid expire time in 'setex' command")
+	}
 
 	val := cmd[3]
 
-- 
2.43.0


From 5238ffaaf728acd5f2fede7987b6f7e1cbee307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:21 +0000
Subject: [PATCH 26/60] fix: SET PX dropped the milliseconds, so a key could
 vanish up to a second early

---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 99a0656..2094c3d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -155,7 +155,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		db.SetExpire(key, now.Unix()+exval)
 	}
 	if px {
-		db.SetExpire(key, time.Now().Unix()+pxval/1000)
+		db.SetExpire(key, (now.UnixMilli()+pxval)/1000)
 	}
 	if exat {
 		db.SetExpire(key, exatval)
-- 
2.43.0


From d2ebf996f4e465257871f1be7435dbc2b852ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:22 +0000
Subject: [PATCH 27/60] fix: SET refused to overwrite a key of another type

---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 2094c3d..b0d827d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -112,7 +112,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	defer db.locks.UnLock(key)
 
 	oldVal, oldOk := db.dict.Get(key)
-	if oldOk {
+	if oldOk && get {
 		if _, ok := oldVal.([]byte); !ok {
 			return resp.NewSimpleError("The value stored at key is not a string")
 		}
-- 
2.43.0


From 3b30d8de623774aee24180851aacbe270a196713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:23 +0000
Subject: [PATCH 28/60] fix: a SET that NX or XX prevented still changed the
 expiry of the key

---
 memdb/strings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index b0d827d..a57d429 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -147,6 +147,11 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	// not performed: leave the expiry alone
+	if (nx && oldOk) || (xx && !oldOk) {
+		return res
+	}
+
 	if !keepttl {
 		db.DeleteExpire(key)
 	}
-- 
2.43.0


From 52bda96c49064bace199db028e6bc221a93e4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:24 +0000
Subject: [PATCH 29/60] fix: GETRANGE with the largest end returned nothing

---
 memdb/strings.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index a57d429..a9a1f05 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -237,8 +237,6 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if end < 0 {
 		end = len(v) + end
 	}
-	end++
-
 	if start > end || start >= len(v) || end < 0 {
 		return resp.NewBulkString([]byte{})
 	}
@@ -247,9 +245,10 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		start = 0
 	}
 
-	if end > len(v) {
-		end = len(v)
+	if end >= len(v) {
+		end = len(v) - 1
 	}
+	end++
 
 	return resp.NewBulkString(v[start:end])
 }
-- 
2.43.0


From c95cddaa5d09c61e17056b6be97888538ae563c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:59 +0000
Subject: [PATCH 30/60] fix: SETRANGE cut off the rest of the value and
 overwrote bytes still being sent to other clients

---
 memdb/strings.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index a9a1f05..e2300a4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -289,15 +289,15 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
-	if offset > len(oldVal) {
-		newVal = oldVal
-		zeroes := make([]byte, offset-len(oldVal)) // pre-allocating memory
-		newVal = append(newVal, zeroes...)
-	} else {
-		newVal = oldVal[:offset]
+	newLen := len(oldVal)
+	if offset+len(value) > newLen {
+		newLen = offset + len(value)
 	}
 
-	newVal = append(newVal, value...)
+	// the old value may still be on its way to a client, so it is copied
+	newVal = make([]byte, newLen)
+	copy(newVal, oldVal)
+	copy(newVal[offset:], value)
 	db.dict.Set(key, newVal)
 	return resp.NewInteger(int64(len(newVal)))
 }
-- 
2.43.0


From f67351b5275203db14642b3eba26604b68b2f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:00 +0000
Subject: [PATCH 31/60] fix: SETRANGE with an empty value created or padded the
 key

---
 memdb/strings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index e2300a4..9c4f87b 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -288,6 +288,11 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		oldVal = make([]byte, 0)
 	}
 
+	// nothing to write: the value stays as it is, and no key is created
+	if len(value) == 0 {
+		return resp.NewInteger(int64(len(oldVal)))
+	}
+
 	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
 	newLen := len(oldVal)
 	if offset+len(value) > newLen {
-- 
2.43.0


From 3a1e55d0ecf5c97b696a2e2bb94a5df736b4918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:01 +0000
Subject: [PATCH 32/60] fix: SETRANGE with a huge offset crashed the server

---
 memdb/strings.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 9c4f87b..7894d7e 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -253,6 +253,9 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	return resp.NewBulkString(v[start:end])
 }
 
+// longest string value, as in Redis
+const maxStringLen = 512 << 20
+
 func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if len(cmd) != 4 {
 		return resp.NewSimpleError("wrong number of arguments for command")
@@ -272,6 +275,9 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	value := cmd[3]
+	if len(value) > 0 && offset > maxStringLen-len(value) {
+		return resp.NewSimpleError("string exceeds maximum allowed size (512MB)")
+	}
 
 	var oldVal, newVal []byte
 	db.locks.Lock(key)
-- 
2.43.0


From ffa59d4319d7c7111d205ae3937ca6347ad52a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:02 +0000
Subject: [PATCH 33/60] fix: MGET left expired keys out of its reply, shifting
 the others, and was not atomic

---
 memdb/strings.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 7894d7e..9180519 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -320,22 +320,25 @@ func mGetString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	res := make([]resp.RedisData, 0)
 
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-
-			if val, ok := db.dict.Get(key); ok {
-				if v, ok := val.([]byte); ok {
-					res = append(res, resp.NewBulkString(v))
-				} else {
-					res = append(res, resp.NewBulkString(nil)) // not string
-				}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	for _, key := range keys {
+		if val, ok := db.dict.Get(key); ok {
+			if v, ok := val.([]byte); ok {
+				res = append(res, resp.NewBulkString(v))
 			} else {
-				res = append(res, resp.NewBulkString(nil))
+				res = append(res, resp.NewBulkString(nil)) // not string
 			}
-
-			db.locks.RUnLock(key)
+		} else {
+			res = append(res, resp.NewBulkString(nil))
 		}
 	}
 
-- 
2.43.0


From 3512f7ee7f314be1addb0fd654e47587f58adcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:03 +0000
Subject: [PATCH 34/60] fix: two concurrent SETNX of the same key could both
 succeed

---
 memdb/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 9180519..4e9e23f 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -406,15 +406,15 @@ func setNxString(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
-	if _, ok := db.dict.Get(key); ok {
-		return resp.NewInteger(0)
-	}
-
 	val := cmd[2]
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	if _, ok := db.dict.Get(key); ok {
+		return resp.NewInteger(0)
+	}
+
 	db.dict.Set(key, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From eca8dbd49cca0538fa4fa09d34a4c7fff08d0627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 35/60] fix: INCR, INCRBY, DECR and DECRBY did nothing to a
 missing key

---
 memdb/strings.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 4e9e23f..efed2dd 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -472,7 +472,10 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		nV := int64(1)
+		db.dict.Set(key, []byte(strconv.FormatInt(nV, 10)))
+		return resp.NewInteger(nV)
 	}
 }
 
@@ -510,7 +513,10 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		nV := increment
+		db.dict.Set(key, []byte(strconv.FormatInt(nV, 10)))
+		return resp.NewInteger(nV)
 	}
 }
 
@@ -543,7 +549,10 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		nV := int64(-1)
+		db.dict.Set(key, []byte(strconv.FormatInt(nV, 10)))
+		return resp.NewInteger(nV)
 	}
 }
 
@@ -581,7 +590,10 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		nV := -decrement
+		db.dict.Set(key, []byte(strconv.FormatInt(nV, 10)))
+		return resp.NewInteger(nV)
 	}
 }
 
-- 
2.43.0


From 0933fd8d1e4a812e4e8a53005adc10572cc0b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:45 +0000
Subject: [PATCH 36/60] fix: INCR, INCRBY, DECR and DECRBY wrapped around on
 overflow

---
 memdb/strings.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index efed2dd..f07e60d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -443,6 +443,11 @@ func strLenString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 }
 
+// whether a+b is out of the range of a 64-bit signed integer
+func addOverflows(a, b int64) bool {
+	return (b > 0 && a > math.MaxInt64-b) || (b < 0 && a < math.MinInt64-b)
+}
+
 func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if len(cmd) != 2 {
 		return resp.NewSimpleError("wrong number of arguments for command")
@@ -466,6 +471,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if addOverflows(nV, 1) {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV++
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -507,6 +515,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if addOverflows(nV, increment) {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV += increment
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -543,6 +554,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if addOverflows(nV, -1) {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV--
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -569,6 +583,10 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
+	// its negation is out of range
+	if decrement == math.MinInt64 {
+		return resp.NewSimpleError("decrement would overflow")
+	}
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
@@ -584,6 +602,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("(error) value is not an integer")
 		}
 
+		if addOverflows(nV, -decrement) {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV -= decrement
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
-- 
2.43.0


From c23176d57285db8339983c81fcc5f7aa4feb8fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:46 +0000
Subject: [PATCH 37/60] fix: INCRBYFLOAT accepted and stored infinities and NaN

---
 memdb/strings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index f07e60d..e3557a1 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -628,7 +628,7 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.DeleteExpiredKey(key)
 
 	increment, err := strconv.ParseFloat(string(cmd[2]), 64)
-	if err != nil {
+	if err != nil || math.IsInf(increment, 0) || math.IsNaN(increment) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
@@ -647,6 +647,9 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 
 		fV += increment
+		if math.IsInf(fV, 0) || math.IsNaN(fV) {
+			return resp.NewSimpleError("increment would produce NaN or Infinity")
+		}
 		fVal := strconv.FormatFloat(fV, 'f', -1, 64)
 		db.dict.Set(key, []byte(fVal))
 
-- 
2.43.0


From acdc3b4c13712ae8cd9488ff04f3d0c3485f567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:47 +0000
Subject: [PATCH 38/60] fix: HSETNX refused a new field of an existing hash and
 accepted a key of another type

---
 memdb/hash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 162611e..c5844d6 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -421,9 +421,6 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		v = NewHash()
 		db.dict.Set(key, v)
-	} else {
-		// 0 if the field already exists in the hash and no operation was performed.
-		return resp.NewInteger(0)
 	}
 
 	// wrong type
@@ -434,6 +431,10 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	field := string(cmd[2])
 	val := cmd[3]
+	if h.Exist(field) {
+		// 0 if the field already exists in the hash and no operation was performed.
+		return resp.NewInteger(0)
+	}
 	h.Set(field, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From 2f9def9add9c97c09310955aaf33f454bad393ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:48 +0000
Subject: [PATCH 39/60] fix: HINCRBY and HINCRBYFLOAT with a bad increment
 created an empty hash

---
 memdb/hash.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index c5844d6..2af4d81 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -161,6 +161,11 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	increment, err := strconv.Atoi(string(cmd[3]))
+	if err != nil {
+		return resp.NewSimpleError("value is not an integer")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -178,10 +183,6 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.Atoi(string(cmd[3]))
-	if err != nil {
-		return resp.NewSimpleError("value is not an integer")
-	}
 
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
@@ -200,6 +201,11 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
+	if err != nil {
+		return resp.NewSimpleError("value is not an float")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -218,10 +224,6 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
-		return resp.NewSimpleError("value is not an float")
-	}
 
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
-- 
2.43.0


From 300fddaf04b9e7f8b053ada5b6b1e18d04f519ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:49 +0000
Subject: [PATCH 40/60] fix: HINCRBY wrapped around on overflow

---
 memdb/hash_struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index dc73ddb..dc0c820 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -84,6 +84,9 @@ func (h *Hash) IncrBy(key string, increment int) (int, bool) {
 		if err != nil {
 			return 0, false
 		}
+		if addOverflows(int64(n), int64(increment)) {
+			return 0, false
+		}
 		value := n + increment
 		h.Set(key, []byte(strconv.Itoa(value)))
 		return value, true
-- 
2.43.0


From 6978f1712be8b8bcb53593feff2539f64884e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:51 +0000
Subject: [PATCH 41/60] fix: HINCRBYFLOAT accepted and stored infinities and
 NaN

---
 memdb/hash.go        | 3 ++-
 memdb/hash_struct.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 2af4d81..5088a85 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -2,6 +2,7 @@ package memdb
 
 import (
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -202,7 +203,7 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.DeleteExpiredKey(key)
 
 	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
+	if err != nil || math.IsInf(increment, 0) || math.IsNaN(increment) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index dc0c820..4c1d43b 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -1,6 +1,7 @@
 package memdb
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -104,6 +105,9 @@ func (h *Hash) IncrByFloat(key string, increment float64) (float64, bool) {
 			return 0, false
 		}
 		value := f + increment
+		if math.IsInf(value, 0) || math.IsNaN(value) {
+			return 0, false
+		}
 		h.Set(key, []byte(strconv.FormatFloat(value, 'f', -1, 64)))
 		return value, true
 	}
-- 
2.43.0


From 8dd3af7df7ec93e1909c8aa74bc11216e03ba7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:54 +0000
Subject: [PATCH 42/60] fix: HMGET of a missing key left out the nil for each
 field

---
 memdb/hash.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 5088a85..5d3254e 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -307,10 +307,7 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
-	}
+	db.DeleteExpiredKey(key)
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -318,8 +315,8 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
+		// a key that does not exist is treated as an empty hash.
+		v = NewHash()
 	}
 
 	// wrong type
-- 
2.43.0


From 67dbcde747f86f4667403ffc48dc21d620ac3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:55 +0000
Subject: [PATCH 43/60] fix: HRANDFIELD with an explicit count of 1 ignored
 WITHVALUES and did not answer with an array

---
 memdb/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 5d3254e..13b32eb 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -552,7 +552,7 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  a single, randomly selected field when the count option is not used
-	if count == 1 {
+	if len(cmd) == 2 {
 		fields := h.Random(1)
 		return resp.NewBulkString([]byte(fields[0]))
 	}
-- 
2.43.0


From 26694815dc2a983bf8fa16be9903fd989a3bc2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:56 +0000
Subject: [PATCH 44/60] fix: HRANDFIELD with a huge negative count crashed the
 server

---
 memdb/hash.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/hash.go b/memdb/hash.go
index 13b32eb..7c967d7 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -507,6 +507,9 @@ func hStrLenHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	return resp.NewInteger(int64(h.StrLen(field)))
 }
 
+// most repeated picks (negative count) one command may ask for
+const maxRandomCount = 1 << 20
+
 func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if len(cmd) < 2 || len(cmd) > 4 {
 		return resp.NewSimpleError("wrong number of arguments for command")
@@ -526,6 +529,9 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if count < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if len(cmd) == 4 {
-- 
2.43.0


From 989554021bf06ac386baa380048095bde28a7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:57 +0000
Subject: [PATCH 45/60] fix: LINSERT inserted at every occurrence of the pivot,
 and never ended when inserting the pivot after itself

---
 memdb/list_struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 287b99a..56afaf1 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -68,6 +68,7 @@ func (l *List) InsertBefore(val []byte, pivot []byte) bool {
 			cur.Prev = node
 			node.Prev.Next = node
 			l.Len++
+			break
 		}
 	}
 	return ok
@@ -82,6 +83,7 @@ func (l *List) InsertAfter(val []byte, pivot []byte) bool {
 			cur.Next = node
 			node.Next.Prev = node
 			l.Len++
+			break
 		}
 	}
 	return ok
-- 
2.43.0


From b8eaef12a60c4566ae6f568afb322c378f2d3472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:58 +0000
Subject: [PATCH 46/60] fix: LINDEX and LSET with the smallest index crashed
 the server

---
 memdb/list_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 56afaf1..6aedbc8 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -28,7 +28,7 @@ func NewList() *List {
 func (l *List) Index(index int) *ListNode {
 	var cur *ListNode
 	if index < 0 {
-		if -index > l.Len {
+		if index < -l.Len {
 			return nil
 		}
 		cur = l.Tail.Prev
-- 
2.43.0


From b8ec61f1d4f34c7594fd9852c68b2361cc9d94f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:00 +0000
Subject: [PATCH 47/60] fix: LPOP and RPOP with an explicit count of 1 did not
 answer with an array

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 22af999..c9f0887 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -242,7 +242,7 @@ func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	if len(cmd) == 2 {
 		node := l.LPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
@@ -755,7 +755,7 @@ func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	if len(cmd) == 2 {
 		node := l.RPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
-- 
2.43.0


From ab450dee31468215e63995ae6f0f103cc095eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:01 +0000
Subject: [PATCH 48/60] fix: LPOP and RPOP ran with surplus arguments instead
 of refusing them

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index c9f0887..a8e7e15 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -201,7 +201,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) != 2 && len(cmd) != 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
@@ -714,7 +714,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) != 2 && len(cmd) != 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-- 
2.43.0


From d210177837736487ec7611112db781d2c634f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:02 +0000
Subject: [PATCH 49/60] fix: LTRIM of a missing key was answered with an error

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index a8e7e15..e418e85 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -673,7 +673,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// passive delete expired key
 	key := string(cmd[1])
 	if db.DeleteExpiredKey(key) {
-		return resp.NewSimpleError("no such key")
+		return resp.NewSimpleString("OK")
 	}
 
 	start, err := strconv.Atoi(string(cmd[2]))
@@ -692,7 +692,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		return resp.NewSimpleError("no such key")
+		return resp.NewSimpleString("OK")
 	}
 
 	// wrong type
-- 
2.43.0


From a997708c2bf89c1f0f501c38feb9e20c0228af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:03 +0000
Subject: [PATCH 50/60] fix: LMOVE from a key of another type left an empty
 destination list behind

---
 memdb/list.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index e418e85..b9efa76 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -159,11 +159,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		return resp.NewBulkString(nil)
 	}
-	desVal, ok := db.dict.Get(des)
-	if !ok {
-		desVal = NewList()
-		db.dict.Set(des, desVal)
-	}
 
 	// wrong type
 	srcList, ok := srcVal.(*List)
@@ -171,6 +166,12 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	desVal, ok := db.dict.Get(des)
+	if !ok {
+		desVal = NewList()
+		db.dict.Set(des, desVal)
+	}
+
 	defer func() {
 		if srcList.Len == 0 {
 			db.dict.Delete(src)
-- 
2.43.0


From 241e2f4cd9728d6cb10b8056d030b309bdcb9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:33 +0000
Subject: [PATCH 51/60] fix: SREM of the last member left an empty set behind

---
 memdb/set.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index 37a9c8b..c876c6a 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -637,6 +637,14 @@ func sRemSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	// if set is empty, delete it
+	defer func() {
+		if s.Len() == 0 {
+			db.dict.Delete(key)
+			db.DeleteExpire(key)
+		}
+	}()
+
 	res := 0
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-- 
2.43.0


From 19f3b2e1731fbca1e391209ff0fe50b7cebd5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:34 +0000
Subject: [PATCH 52/60] fix: set operations skipped expired operands instead of
 treating them as empty, and crashed when all had expired

---
 memdb/set.go | 51 ++++++++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index c876c6a..3ec44e8 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -75,10 +75,9 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -143,13 +142,9 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	// get primary key
@@ -224,10 +219,9 @@ func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -292,13 +286,9 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	// get primary key
@@ -663,10 +653,9 @@ func sUnionSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -731,13 +720,9 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	// get primary key
-- 
2.43.0


From feddb6470d382d91a8435ef0a9151ae41875d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:35 +0000
Subject: [PATCH 53/60] fix: SINTERSTORE ignored missing operands instead of
 treating them as empty

---
 memdb/set.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index 3ec44e8..950ea47 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -198,6 +198,9 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
+		} else {
+			// Keys that do not exist are considered to be empty sets.
+			sets = append(sets, NewSet())
 		}
 	}
 
@@ -342,6 +345,9 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
+		} else {
+			// Keys that do not exist are considered to be empty sets.
+			sets = append(sets, NewSet())
 		}
 	}
 
@@ -776,6 +782,9 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
+		} else {
+			// Keys that do not exist are considered to be empty sets.
+			sets = append(sets, NewSet())
 		}
 	}
 
-- 
2.43.0


From cf2c69a853c44eef2894c5bf5ca2f4a703026c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:36 +0000
Subject: [PATCH 54/60] fix: the set STORE commands overwrote their destination
 when failing, and stored empty sets

---
 memdb/set.go | 51 ++++++++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 950ea47..7404e11 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -129,6 +129,18 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	return resp.NewArray(res)
 }
 
+// whatever old destination key/value it is, just cover it;
+// an empty result leaves no key. dest must be locked
+func storeSet(db *MemDb, dest string, set *Set) resp.RedisData {
+	if set.Len() == 0 {
+		db.dict.Delete(dest)
+	} else {
+		db.dict.Set(dest, set)
+	}
+	db.DeleteExpire(dest)
+	return resp.NewInteger(int64(set.Len()))
+}
+
 func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	if len(cmd) < 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
@@ -168,24 +180,15 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
-		return resp.NewInteger(int64(destSet.Len()))
+		return storeSet(db, dest, destSet)
 	}
 
 	// calculate set operation
@@ -210,7 +213,7 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
-	return resp.NewInteger(int64(destSet.Len()))
+	return storeSet(db, dest, destSet)
 }
 
 func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
@@ -315,24 +318,15 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover old before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
-		return resp.NewInteger(int64(destSet.Len()))
+		return storeSet(db, dest, destSet)
 	}
 
 	// calculate set operation
@@ -357,7 +351,7 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
-	return resp.NewInteger(int64(destSet.Len()))
+	return storeSet(db, dest, destSet)
 }
 
 func sIsMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
@@ -752,24 +746,15 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
-		return resp.NewInteger(int64(destSet.Len()))
+		return storeSet(db, dest, destSet)
 	}
 
 	// calculate set operation
@@ -794,7 +779,7 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
-	return resp.NewInteger(int64(destSet.Len()))
+	return storeSet(db, dest, destSet)
 }
 
 func RegisterSetCommands() {
-- 
2.43.0


From 4f71dd0a1a75536c6a2ef72789ffae31bd8f67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:37 +0000
Subject: [PATCH 55/60] fix: SMOVE to a missing destination did not move the
 member

---
 memdb/set.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 7404e11..fdea220 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -434,9 +434,7 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	des := string(cmd[2])
-	if db.DeleteExpiredKey(des) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(des)
 
 	member := string(cmd[3])
 
@@ -462,7 +460,11 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	desVal, ok := db.dict.Get(des)
 	if !ok {
-		return resp.NewInteger(0)
+		if !srcSet.Has(member) {
+			return resp.NewInteger(0)
+		}
+		desVal = NewSet()
+		db.dict.Set(des, desVal)
 	}
 
 	desSet, ok := desVal.(*Set)
-- 
2.43.0


From 86ef9bd4f5e7d2498d13f9879c1d8654f8f7b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:38 +0000
Subject: [PATCH 56/60] fix: SPOP and SRANDMEMBER answered nil for the empty
 member, SPOP losing it

---
 memdb/set.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index fdea220..bfa5e87 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -524,11 +524,7 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}()
 
 	if !count {
-		pop := s.Pop()
-		if pop == "" {
-			return resp.NewBulkString(nil)
-		}
-		return resp.NewBulkString([]byte(pop))
+		return resp.NewBulkString([]byte(s.Pop()))
 	}
 
 	if countVal > s.Len() {
@@ -585,9 +581,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-		if rand[0] == "" {
-			return resp.NewBulkString(nil)
-		}
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-- 
2.43.0


From 47ce4a96a739f8d2e442f89248d6681492d1766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:39 +0000
Subject: [PATCH 57/60] fix: SRANDMEMBER with a huge count crashed the server

---
 memdb/set.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index bfa5e87..bb803e5 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -584,14 +584,12 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-	var res []resp.RedisData
-	if countVal < 0 {
-		res = make([]resp.RedisData, 0, -countVal)
-	} else {
-		res = make([]resp.RedisData, 0, countVal)
+	if countVal < -maxRandomCount {
+		return resp.NewSimpleError("value is out of range")
 	}
 
 	rand = s.Random(countVal)
+	res := make([]resp.RedisData, 0, len(rand))
 	for i := 0; i < len(rand); i++ {
 		res = append(res, resp.NewBulkString([]byte(rand[i])))
 	}
-- 
2.43.0


From ccaa6d572a8157dfe0545fc530f9cb0216414c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:23 +0000
Subject: [PATCH 58/60] fix: EXPIRE accepted an empty option

---
 memdb/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 0f5e100..7d3edf1 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -143,7 +143,7 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-		if option != "" {
+		if len(cmd) == 4 {
 			return resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(cmd[3])))
 		}
 		res = db.SetExpire(key, ttl)
-- 
2.43.0


From 107362a893acb124dde20a81c4fc2ae476c124d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:58 +0000
Subject: [PATCH 59/60] fix: KEYS listed an expired key that another client was
 removing

---
 memdb/keys.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 7d3edf1..bb5d4f0 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -78,10 +78,12 @@ func keysKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	res := make([]resp.RedisData, 0)
 	keys := db.dict.Keys()
 	for _, key := range keys {
-		if !db.DeleteExpiredKey(key) {
-			if util.PattenMatch(pattern, key) {
-				res = append(res, resp.NewBulkString([]byte(key)))
-			}
+		if db.DeleteExpiredKey(key) {
+			continue
+		}
+		// another client may have removed the expired key meanwhile
+		if _, ok := db.dict.Get(key); ok && util.PattenMatch(pattern, key) {
+			res = append(res, resp.NewBulkString([]byte(key)))
 		}
 	}
 
-- 
2.43.0


From f271034a16a931757e2ea68c51fef40c5bda54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 60/60] fix: a restarted server wrote over the beginning of its
 log file

---
 logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index 4951003..5eb801d 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -62,7 +62,7 @@ func Init(config *config.Config) error {
 
 	// check file
 	fileName := path.Join(logConf.Path, logConf.Name)
-	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE, 0755)
+	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

