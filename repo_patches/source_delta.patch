From c9458d5492aa387416157f3ab40b5776323a4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 01/31] fix: bencode integer decoding must not read past the
 input or accept a plus sign

---
 misc/beancode.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 0e59064..dad84bd 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -39,18 +39,23 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 
 	i := start + 1
 	for ; i < len(src) && src[i] != 'e'; i++ {
+		// pass +2
+		if src[i] == '+' {
+			return 0, -1, WrongDecodeParamErr
+		}
+
 		// pass -0 -02
 		if src[i-1] == '-' && src[i] == '0' {
 			return 0, -1, WrongDecodeParamErr
 		}
 
 		// pass 00 02
-		if src[i-1] == 'i' && src[i] == '0' && src[i+1] != 'e' {
+		if src[i-1] == 'i' && src[i] == '0' && (i+1 >= len(src) || src[i+1] != 'e') {
 			return 0, -1, WrongDecodeParamErr
 		}
 	}
 
-	if i > start && src[i] == 'e' {
+	if i < len(src) && src[i] == 'e' {
 		result, err := strconv.Atoi(src[start+1 : i])
 		if err != nil {
 			return 0, -1, WrongDecodeParamErr
-- 
2.43.0


From 235b69202761e869ee5220662b0d3ebbff6d019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 02/31] fix: bencode string decoding must accept any payload
 and check the length against the input

---
 misc/beancode.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index dad84bd..4d1596d 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"reflect"
 	"strconv"
-	"strings"
 )
 
 var WrongDecodeParamErr = errors.New("wrong benDecode param")
@@ -75,26 +74,18 @@ func DecodeString(src string) (string, error) {
 	if len(src) < 2 {
 		return "", WrongDecodeParamErr
 	}
-	subs := strings.Split(src, ":")
-	if len(subs) < 1 || len(subs) > 2 {
-		return "", WrongDecodeParamErr
-	}
 
-	slen, err := strconv.Atoi(subs[0])
-	if err != nil {
-		return "", WrongDecodeParamErr
-	}
+	result, next, err := innerDecodeString(src, 0)
 
-	if len(subs[1]) != slen {
+	if next != len(src) || err != nil {
 		return "", WrongDecodeParamErr
 	}
-
-	return subs[1], nil
+	return result, nil
 }
 
 func innerDecodeString(src string, start int) (string, int, error) {
 	idx := indexFirstByteInStr(src, start, len(src), ':')
-	if idx <= start {
+	if idx <= start || src[start] < '0' || src[start] > '9' {
 		return "", -1, WrongDecodeParamErr
 	}
 
@@ -103,11 +94,11 @@ func innerDecodeString(src string, start int) (string, int, error) {
 		return "", -1, err
 	}
 
-	start = idx + slen + 1
-
-	if start >= len(src) {
+	if slen > len(src)-idx-1 {
 		return "", -1, WrongDecodeParamErr
 	}
+
+	start = idx + slen + 1
 	return src[idx+1 : start], start, nil
 }
 
@@ -196,6 +187,9 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 }
 
 func decodeItem(src string, i int) (interface{}, int, error) {
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	if src[i] == 'i' {
 		return innerDecodeInteger(src, i)
 	} else if src[i] == 'l' {
-- 
2.43.0


From d008e6d60bc6bb7b37bbef58074d9f7c34d3db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 03/31] fix: bencode lists and dictionaries must be terminated
 and DecodeDict must reject trailing bytes

---
 misc/beancode.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 4d1596d..90a2a52 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -183,6 +183,9 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		result = append(result, tmp)
 		i = nextIdx
 	}
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
@@ -238,10 +241,14 @@ func DecodeDict(src string) (Dict, error) {
 
 	result, next, err := innerDecodeDict(src, 0)
 
-	if next < len(src) || err != nil {
+	if err != nil {
 		return nil, err
 	}
 
+	if next != len(src) {
+		return nil, WrongDecodeParamErr
+	}
+
 	return result, nil
 }
 
@@ -294,6 +301,9 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		i = next
 	}
 
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
-- 
2.43.0


From 3f4d5addb3c613b281fa0d8d281861e93a8c58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 04/31] fix: Dict.GetValOrDefault must return the default when
 the key is missing

---
 misc/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/types.go b/misc/types.go
index 2ac73b6..1f0ef0f 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -61,11 +61,11 @@ func (d *Dict) GetVal(key string) interface{} {
 }
 
 func (d *Dict) GetValOrDefault(key string, val interface{}) interface{} {
-	val, exist := (*d)[key]
+	dst, exist := (*d)[key]
 	if !exist {
 		return val
 	}
-	return val
+	return dst
 }
 
 func (d *Dict) Exist(key string) bool {
-- 
2.43.0


From 7ed8498783789e666285c496cc71a6d9fa27ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 05/31] fix: reading a list out of range must fail with the
 library's error

---
 misc/types.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/misc/types.go b/misc/types.go
index 1f0ef0f..274bcc8 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -1,6 +1,9 @@
 package misc
 
-import "strings"
+import (
+	"strconv"
+	"strings"
+)
 
 type Dict map[string]interface{}
 
@@ -76,6 +79,9 @@ func (d *Dict) Exist(key string) bool {
 type List []interface{}
 
 func (l *List) GetVal(index int) interface{} {
+	if !l.Exist(index) {
+		PanicBizErr("cannot find val at index " + strconv.Itoa(index))
+	}
 	return (*l)[index]
 }
 
@@ -112,7 +118,7 @@ func (l *List) GetDict(index int) Dict {
 }
 
 func (l *List) Exist(index int) bool {
-	return len(*l) > index
+	return index >= 0 && len(*l) > index
 }
 
 func (l *List) ContainsString(target string) bool {
-- 
2.43.0


From 5afa45cb0852b9282beba21e3408218d7227847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 06/31] fix: error text must carry a stack trace only when
 asked to, it is sent to remote peers

---
 misc/errors.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/errors.go b/misc/errors.go
index f7fe989..e4cbdd6 100644
--- a/misc/errors.go
+++ b/misc/errors.go
@@ -23,14 +23,16 @@ type Error struct {
 }
 
 func (d *Error) Error() string {
-	errString := strconv.Itoa(int(d.code)) + ": " + d.msg
+	errString := strconv.Itoa(int(d.code)) + ":" + d.msg
 	if d.context != nil {
 		errString += ", params: "
 		for _, val := range d.context {
 			errString += ToString(val) + "|"
 		}
 	}
-	errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	if d.printStack {
+		errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	}
 	return errString
 }
 
-- 
2.43.0


From 557b1132eb733aa4c29a25aa1e5beee4cd46fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 07/31] fix: SyncMap.Del must not read the map without the lock

---
 misc/syncmap.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/misc/syncmap.go b/misc/syncmap.go
index 300cf07..4d76a09 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,11 +24,8 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
-// double check delete
+// delete if exist
 func (m *SyncMap) Del(txId string) {
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	defer m.Unlock()
 	m.Lock()
 	if _, ok := m.mapping[txId]; !ok {
-- 
2.43.0


From e6e4e792d5579cd0d7245b9bdfdc4596a437512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 08/31] fix: the logger map must only be read under its lock

---
 misc/logger.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6a54e24..00a2342 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -58,9 +58,6 @@ var bufferedLoggers = &bufferLogger{
 var defaultLoggerFactory LoggerFactory = NewConsoleLoggerFactory()
 
 func (b *bufferLogger) mapLogger(name string) Logger {
-	if v, ok := b.bufferedLoggers[name]; ok {
-		return v
-	}
 	b.Lock()
 	defer b.Unlock()
 	if v, ok := b.bufferedLoggers[name]; ok {
@@ -72,6 +69,8 @@ func (b *bufferLogger) mapLogger(name string) Logger {
 }
 
 func (b *bufferLogger) flush() error {
+	b.Lock()
+	defer b.Unlock()
 	for _, v := range b.bufferedLoggers {
 		v.Flush()
 	}
-- 
2.43.0


From 91d2f497d044a0ca6b2ae7d861e74a995471b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 09/31] fix: registering a cleanup during shutdown must not
 race with running them

---
 misc/shutdown.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/misc/shutdown.go b/misc/shutdown.go
index b9e5f3e..60c9962 100644
--- a/misc/shutdown.go
+++ b/misc/shutdown.go
@@ -35,10 +35,11 @@ func Wait4Shutdown(timeout time.Duration) {
 }
 
 type shutdownContext struct {
-	sigChan  chan os.Signal
-	status   atomic.Value
-	innerCtx context.Context
-	cleans   []CleanFunc
+	sigChan   chan os.Signal
+	status    atomic.Value
+	innerCtx  context.Context
+	cleanLock sync.Mutex
+	cleans    []CleanFunc
 }
 
 type CleanFunc func()
@@ -72,15 +73,20 @@ func (ctx *shutdownContext) Status() ShutdownStatus {
 }
 
 func (ctx *shutdownContext) Clean(cleanHandler ...CleanFunc) {
+	ctx.cleanLock.Lock()
+	defer ctx.cleanLock.Unlock()
 	ctx.cleans = append(ctx.cleans, cleanHandler...)
 }
 
 func (ctx *shutdownContext) runCleans() chan bool {
 	finished := make(chan bool)
 	go func() {
+		ctx.cleanLock.Lock()
+		cleans := append([]CleanFunc(nil), ctx.cleans...)
+		ctx.cleanLock.Unlock()
 		wg := sync.WaitGroup{}
-		wg.Add(len(ctx.cleans))
-		for _, clean := range ctx.cleans {
+		wg.Add(len(cleans))
+		for _, clean := range cleans {
 			go func(callback CleanFunc) {
 				callback()
 				wg.Done()
-- 
2.43.0


From af05a3bebedc353581e1415ef6f81b3e2d7a5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 10/31] fix: WorkPool workers must exit at shutdown after
 running every accepted task, shutdown must happen once

---
 misc/workpool.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 12b5d4d..a141659 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -15,6 +15,7 @@ type WorkPool struct {
 	name       string
 	size       int
 	queue      chan AsyncWorkFunc
+	submitLock sync.RWMutex
 	wg         sync.WaitGroup
 	status     atomic.Value
 	shutdowned chan bool
@@ -32,20 +33,21 @@ func (pool *WorkPool) init() {
 }
 
 func (pool *WorkPool) workerLoop() {
-	for {
-		select {
-		case <-pool.shutdowned:
-			break
-		default:
-		}
-		worker := <-pool.queue
+	// not running exit
+	defer pool.wg.Done()
+	// run every accepted task, also those still queued at shutdown
+	for worker := range pool.queue {
 		worker()
 	}
-	// not running exit
-	pool.wg.Done()
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
+	if pool.Status() != Running {
+		panic(pool.name + " is shutdowned")
+	}
+	// the queue cannot be closed while submitting
+	pool.submitLock.RLock()
+	defer pool.submitLock.RUnlock()
 	if pool.Status() != Running {
 		panic(pool.name + " is shutdowned")
 	}
@@ -53,11 +55,10 @@ func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
-	if Running != pool.Status() {
+	if !pool.status.CompareAndSwap(Running, Shutdowning) {
 		return
 	}
 	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
-	pool.status.Store(Shutdowning)
 	// broadcast shutdown
 	close(pool.shutdowned)
 	select {
@@ -72,6 +73,10 @@ func (pool *WorkPool) Shutdown(timeout time.Duration) {
 func (pool *WorkPool) waitFinish() chan bool {
 	finish := make(chan bool)
 	go func() {
+		// no submitter left, workers exit when the queue is drained
+		pool.submitLock.Lock()
+		close(pool.queue)
+		pool.submitLock.Unlock()
 		pool.wg.Wait()
 		close(finish)
 	}()
-- 
2.43.0


From 667a730a3c373e6b9969265428007d6d7c45147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 11/31] fix: concurrent UdpServer.Close must close the socket
 once

---
 dht/krpc/udp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dht/krpc/udp.go b/dht/krpc/udp.go
index ef97185..1bc39f1 100644
--- a/dht/krpc/udp.go
+++ b/dht/krpc/udp.go
@@ -33,6 +33,9 @@ func (s *UdpServer) Close() error {
 	}
 	defer s.Unlock()
 	s.Lock()
+	if s.closed.Load().(bool) {
+		return nil
+	}
 	return s.close()
 }
 
-- 
2.43.0


From 61b1260c10ac302b379eb66a2ffef9a1f244de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 12/31] fix: a response must run its query's handler at most
 once

---
 dht/krpc/server.go | 2 +-
 misc/syncmap.go    | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index f5d0a9f..869940a 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -159,7 +159,7 @@ func (s *RpcServer) responseHandle(addr *net.UDPAddr, dict misc.Dict) {
 	body := dict.GetDict("r")
 	nodeId := body.GetString("id")
 	serverLogger.Info("response handle", misc.Dict{"txId": txId, "nodeId": hex.EncodeToString([]byte(nodeId))})
-	handler, exist := s.requestMapping.Get(txId)
+	handler, exist := s.requestMapping.Take(txId)
 
 	if !exist {
 		serverLogger.Error("cannot match request", misc.Dict{"txId": txId, "nodeId": nodeId})
diff --git a/misc/syncmap.go b/misc/syncmap.go
index 4d76a09..d3002af 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,6 +24,15 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
+// get and delete in one step, only one caller can take a value
+func (m *SyncMap) Take(key string) (interface{}, bool) {
+	defer m.Unlock()
+	m.Lock()
+	val, ok := m.mapping[key]
+	delete(m.mapping, key)
+	return val, ok
+}
+
 // delete if exist
 func (m *SyncMap) Del(txId string) {
 	defer m.Unlock()
-- 
2.43.0


From d1dcc9cf8c77f10721b50d284f397b468bc909e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 13/31] fix: a query without a valid method name must get a
 param error reply

---
 dht/krpc/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index 869940a..0086aa6 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -175,8 +175,6 @@ func (s *RpcServer) responseHandle(addr *net.UDPAddr, dict misc.Dict) {
 func (s *RpcServer) requestHandle(addr *net.UDPAddr, resp misc.Dict) (ret Response) {
 
 	txId := resp.GetString("t")
-	queryType := resp.GetString("q")
-	serverLogger.Info("response handle", misc.Dict{"txId": txId, "queryType": queryType})
 	defer func() {
 		if err := recover(); err != nil {
 			serverLogger.Error("request handle panic", misc.Dict{"err": err})
@@ -189,6 +187,8 @@ func (s *RpcServer) requestHandle(addr *net.UDPAddr, resp misc.Dict) (ret Respon
 	}()
 
 	// parse header
+	queryType := resp.GetString("q")
+	serverLogger.Info("response handle", misc.Dict{"txId": txId, "queryType": queryType})
 	if !supportQueryType.ContainsString(queryType) {
 		return WithParamErr(txId, "donnot support <"+queryType+"> query type")
 	}
-- 
2.43.0


From 2f9a86816eedc13e2a816c1e26eea7565097fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 14/31] fix: ResetConfig must drop cached config sections

---
 config/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/config.go b/config/config.go
index c151eb2..f9df58a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -68,6 +68,8 @@ func init() {
 }
 
 func ResetConfig() {
+	// drop cached sections, they may come from another file
+	configMap = make(misc.Dict, 16)
 	viper.SetConfigPermissions(0666)
 	configLogger.Trace("read config", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	if err := viper.ReadInConfig(); err != nil {
-- 
2.43.0


From f05e694aa436ccc460bd14010d272de769e5aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 15/31] fix: node ids are binary and must be compared exactly

---
 dht/node.go       | 2 +-
 dht/routetable.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 2380dfe..3eb0720 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -50,7 +50,7 @@ func (n *NodeInfo) Equals(node *NodeInfo) bool {
 	if node == nil {
 		return false
 	}
-	if strings.EqualFold(n.Id, node.Id) && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
+	if n.Id == node.Id && n.Addr.String() == node.Addr.String() {
 		return true
 	}
 	return false
diff --git a/dht/routetable.go b/dht/routetable.go
index 27613a1..34c7c71 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"math/bits"
-	"strings"
 	"sync"
 )
 
@@ -116,7 +115,7 @@ func (t *RouteTable) Find(id string) *NodeInfo {
 	bucket := t.nodeMap[preLen]
 	nodes := bucket.All()
 	for _, n := range nodes {
-		if strings.EqualFold(n.Id, id) {
+		if n.Id == id {
 			return n
 		}
 	}
-- 
2.43.0


From 8d490f4056a13493a8d2fccae1e1ba59cce03cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 16/31] fix: Bucket.Iterator must only visit stored nodes

---
 dht/routetable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 34c7c71..2abe929 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -38,7 +38,7 @@ func (b *Bucket) Exist(node *NodeInfo) bool {
 func (b *Bucket) Iterator(handler func(*NodeInfo)) {
 	defer b.RUnlock()
 	b.RLock()
-	for _, v := range b.nodes {
+	for _, v := range b.nodes[:b.size] {
 		handler(v)
 	}
 }
-- 
2.43.0


From 37c760b0b2824a46e901d1165284271d5f8e209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 17/31] fix: re-adding a stored node must not change the route
 table size

---
 dht/routetable.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 2abe929..edad75c 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -153,7 +153,10 @@ func (t *RouteTable) AddNode(node *NodeInfo) error {
 func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 	// hit last buket or other buchet
 	bucket := t.nodeMap[preLen]
-	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {
+	if bucket.Exist(node) {
+		return nil
+	}
+	if preLen >= t.lastBucketIndex && bucket.Full() {
 		// hit last bucket, and split new bucket
 		return t.addNodeWithsplitBucket(node)
 	}
@@ -164,7 +167,7 @@ func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 		return errors.New("the bucket is full")
 	}
 
-	if !bucket.Exist(node) && !bucket.Add(node) {
+	if !bucket.Add(node) {
 		// full bucket just ignore
 		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
 		return errors.New("the bucket is full")
-- 
2.43.0


From 63c08b7aef3cf15d730ed74b3e29496429d22d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 18/31] fix: AddNode must report failure when the split route
 table still cannot take the node

---
 dht/routetable.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index edad75c..6354f57 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -197,11 +197,11 @@ func (t *RouteTable) addNodeWithsplitBucket(node *NodeInfo) error {
 	for _, n := range snodes {
 		t.addNode(n, t.solveMaxPreLen(n.Id))
 	}
-	t.addNode(node, t.solveMaxPreLen(node.Id))
-	if preSize+1 != t.nodeCount() {
+	err := t.addNode(node, t.solveMaxPreLen(node.Id))
+	if err == nil && preSize+1 != t.nodeCount() {
 		rtableLogger.Error("the route table add fail", misc.Dict{"lastIndex": t.lastBucketIndex, "size": t.size})
 	}
-	return nil
+	return err
 }
 
 func (t *RouteTable) nodeCount() int {
-- 
2.43.0


From d40e6332f08d83c56b0bf09f74da69fd370cc145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 19/31] fix: peer messages must be read completely and one at a
 time

---
 dht/peerwire/bep3.go | 8 ++++----
 dht/peerwire/bep9.go | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 528b095..30d2f04 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -136,7 +136,7 @@ func supportExterned(bytes []byte) []byte {
 // without prefix bytes
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
-	_, err := reader.Read(preLenbytes)
+	_, err := io.ReadFull(reader, preLenbytes)
 	if err != nil {
 		return false, nil, err
 	}
@@ -150,10 +150,10 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	if preLen > maxReadLength {
 		return false, nil, errors.New("read input toolarge")
 	}
-	buf := peerBytesPool.GetBySize(maxReadLength)
-	n, err := reader.Read(buf)
+	buf := peerBytesPool.GetBySize(maxReadLength)[:preLen]
+	_, err = io.ReadFull(reader, buf)
 	if err != nil {
 		return false, nil, err
 	}
-	return false, buf[:n], nil
+	return false, buf, nil
 }
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 81e4fae..6dcf33e 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io"
 	"net"
 	"strings"
 	"time"
@@ -270,7 +271,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 	}
 	// get handshake response
 	readBytes := make([]byte, handShakeLen)
-	_, err = peerConn.conn.Read(readBytes)
+	_, err = io.ReadFull(peerConn.conn, readBytes)
 	if err != nil {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
-- 
2.43.0


From d97be724c1602fe17357a987ab01ae19ac8a429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 20/31] fix: metadata pieces must not alias the pooled read
 buffer

---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 6dcf33e..7fdb22c 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -241,7 +241,8 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			return
 		}
 		pieceNum := fetchMetaResp.PieceNum()
-		peerConn.metaData[pieceNum] = fetchMetaResp.Data()
+		// the data lies in a pooled buffer, keep a copy
+		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)
 		peerConn.requestedMetaData[pieceNum] = true
 	//pexExtendedId
 	case 2:
-- 
2.43.0


From ee5c95e2d0bddb25766ec42551fca960717502c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 21/31] fix: metadata requests must use the extension number
 announced by the peer

---
 dht/peerwire/bep9.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 7fdb22c..82fa5c9 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -213,6 +213,13 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			fetchMetaLogger.Panic("get extended handshake wrong format", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
 		}
 
+		// the peer chooses the extension number of messages sent to it
+		metadata := exHandShakeResp.Metadata()
+		peerMsgId := metadata.GetInteger("ut_metadata")
+		if peerMsgId <= 0 || peerMsgId > 255 {
+			fetchMetaLogger.Panic("peer not support ut_metadata", misc.Dict{"laddr": laddr, "ut_metadata": peerMsgId})
+		}
+
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
 		peerConn.metaDataSize = metaSize
@@ -225,7 +232,7 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		for i := 0; i < pieceCount; i++ {
 			peerConn.requestedMetaData[i] = false
 			// request piece
-			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(1, ExRequest, i, 0))
+			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(peerMsgId, ExRequest, i, 0))
 			if err != nil {
 				fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})
 			}
-- 
2.43.0


From 29b644cbf656327dade5508c99d7cc2a06f042ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 22/31] fix: the metadata size claimed by a peer must be
 bounded

---
 dht/peerwire/bep9.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 82fa5c9..f9c171a 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -15,6 +15,9 @@ import (
 // refer http://www.bittorrent.org/beps/bep_0009.html
 const SizeOf16KB = 16 * 1024
 
+// peers claim the size, bound the memory it takes
+const maxMetaDataSize = 32 * 1024 * 1024
+
 type ExFecthMetaType int
 
 const (
@@ -222,6 +225,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
+		if metaSize < 0 || metaSize > maxMetaDataSize {
+			fetchMetaLogger.Panic("get wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
-- 
2.43.0


From 5d228b12150c67aeb6a844efce51bd194f08053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 23/31] fix: a peer that does not read must not block a
 metadata fetch forever

---
 dht/peerwire/bep9.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index f9c171a..45f1168 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -138,7 +138,7 @@ func FetchMetaData(laddr string, peerId, infoHash []byte) (ret []byte, retErr er
 		conn.Close()
 	}()
 	conn.SetReadDeadline(time.Now().Add(time.Second * 1))
-	conn.SetWriteDeadline(time.Time{})
+	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))
 	peerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)
 	handshakePeer(peerId, peerConn)
 	initialMessages(peerConn)
-- 
2.43.0


From 38b156a8858fce9ce4e3a29c0c7eaaaed2e9b57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 24/31] fix: IPv6 fetch addresses need brackets

---
 dht/fetchtorrent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index e60aad4..5a5ced8 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"net"
 	"os"
 	"strconv"
 )
@@ -51,7 +52,7 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
 		useUdpPort = true
 	}
-	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
+	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From e3219248e51f16c529bcbc93ec2b7f9ea675ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 25/31] fix: torrent files must be stored atomically and their
 directory created

---
 dht/fetchtorrent.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 5a5ced8..7a660f9 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io/ioutil"
 	"net"
 	"os"
 	"strconv"
@@ -60,15 +61,32 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 }
 
 func flushTorrentFile(fileName string, data []byte) {
-	file, err := os.Create("torrent/" + fileName + ".torrent")
-	defer file.Close()
+	if err := os.MkdirAll("torrent", os.ModePerm); err != nil {
+		dhtLogger.Error("create dir err", misc.Dict{"err": err})
+		return
+	}
+	// write a temp file and rename it, a torrent file must never be incomplete
+	file, err := ioutil.TempFile("torrent", fileName+".*.tmp")
 	if err != nil {
 		dhtLogger.Error("create file err", misc.Dict{"err": err})
 		return
 	}
 	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), "torrent/"+fileName+".torrent")
+	}
 	if err != nil {
 		dhtLogger.Error("write file err", misc.Dict{"err": err})
+		os.Remove(file.Name())
 		return
 	}
 }
-- 
2.43.0


From 8fbd13ef2f7555dd3db404614b03d17352c3b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 26/31] fix: a handshake whose protocol length does not fit is
 malformed

---
 dht/peerwire/bep3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 30d2f04..f4fff3f 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -90,6 +90,9 @@ func parseHandShakeMsg(data []byte) HandShakeMsg {
 	index := 0
 	protocolLen := int(data[index])
 	index++
+	if index+protocolLen+len(reservedBytes)+InfoHashLen+PeerIdLen != len(data) {
+		peerWireLogger.Panic("parseHandShakeMsg wrong protocol len", misc.Dict{"protocolLen": protocolLen})
+	}
 	protocol := data[index : index+protocolLen]
 	index += protocolLen
 	rBytes := data[index : index+len(reservedBytes)]
-- 
2.43.0


From 0c06742a9ba46b92155cb6254d236a6c3fa64fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 27/31] fix: UdpServer.Close returns only once the socket is
 closed

---
 dht/krpc/udp.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dht/krpc/udp.go b/dht/krpc/udp.go
index 1bc39f1..18677e5 100644
--- a/dht/krpc/udp.go
+++ b/dht/krpc/udp.go
@@ -28,9 +28,6 @@ type UdpServer struct {
 }
 
 func (s *UdpServer) Close() error {
-	if s.closed.Load().(bool) {
-		return nil
-	}
 	defer s.Unlock()
 	s.Lock()
 	if s.closed.Load().(bool) {
-- 
2.43.0


From ef3a2e12efd8b47e8d6ac9f79df7c185128eaed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 28/31] fix: config sections may be read concurrently

---
 config/config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index f9df58a..bdc5ed7 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"github.com/spf13/viper"
+	"sync"
 )
 
 const (
@@ -17,6 +18,7 @@ const (
 	loggerConfigKey       = "logger"
 )
 
+var configLock sync.Mutex
 var configMap = make(misc.Dict, 16)
 var configLogger = misc.GetLogger().SetPrefix("config")
 
@@ -68,6 +70,8 @@ func init() {
 }
 
 func ResetConfig() {
+	configLock.Lock()
+	defer configLock.Unlock()
 	// drop cached sections, they may come from another file
 	configMap = make(misc.Dict, 16)
 	viper.SetConfigPermissions(0666)
@@ -105,7 +109,9 @@ func LoggerConfig() *loggerConfig {
 }
 
 func getSubConfig(key string, valPtr interface{}) interface{} {
-
+	// sections are read from several goroutines
+	configLock.Lock()
+	defer configLock.Unlock()
 	if val, ok := configMap[key]; ok {
 		return val
 	}
-- 
2.43.0


From 97e2445030ff747d18b6311bbc55e073627a50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 29/31] fix: torrent command skips directory entries that are
 no regular files

---
 cmd/torrent.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 3bbdd7a..7e8ee5b 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -20,8 +20,11 @@ var torrent = &cobra.Command{
 			dirs, err := ioutil.ReadDir(path)
 			misc.PanicSysErrNonNil(err, "open torrent dir err")
 			for _, item := range dirs {
-				if !item.IsDir() && strings.HasSuffix(item.Name(), ".torrent") {
-					printTorrentInfo(item.Name(), filepath.Join(path, item.Name()))
+				itemPath := filepath.Join(path, item.Name())
+				// opening a named pipe blocks forever, a linked directory cannot be read
+				info, err := os.Stat(itemPath)
+				if err == nil && info.Mode().IsRegular() && strings.HasSuffix(item.Name(), ".torrent") {
+					printTorrentInfo(item.Name(), itemPath)
 				}
 			}
 			return
-- 
2.43.0


From d567fa744c2ecb9759f664cc7ea8010af9e8f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:45 +0000
Subject: [PATCH 30/31] fix: close torrent files after reading them

The torrent command left every file of a directory open, so that listing a
directory failed once the limit of open files was reached.
---
 cmd/torrent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 7e8ee5b..1385146 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -36,6 +36,7 @@ var torrent = &cobra.Command{
 func printTorrentInfo(filename, path string) {
 	file, err := os.Open(path)
 	misc.PanicSysErrNonNil(err, "open torrent file err", path)
+	defer file.Close()
 	bytes, err := ioutil.ReadAll(file)
 	misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-- 
2.43.0


From 9dc4925b24d21479a18b03c72973411f08d413e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 31/31] fix: decode nested bencode without recursion

A file of a few megabytes of nested lists overflowed the goroutine stack,
which no recover can catch, and ended the process.
---
 misc/beancode.go | 129 ++++++++++++++++++++++++++++-------------------
 1 file changed, 77 insertions(+), 52 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 90a2a52..e8c8724 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -173,37 +173,84 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		return nil, -1, WrongDecodeParamErr
 	}
 
-	result := make(List, 0, 16)
-	i := start + 1
-	for i < len(src) && src[i] != 'e' {
-		tmp, nextIdx, err := decodeItem(src, i)
-		if err != nil {
-			return nil, -1, err
-		}
-		result = append(result, tmp)
-		i = nextIdx
-	}
-	if i >= len(src) {
-		return nil, -1, WrongDecodeParamErr
+	result, next, err := decodeNested(src, start)
+	if err != nil {
+		return nil, -1, err
 	}
-	return result, i + 1, nil
+	return result.(List), next, nil
 }
 
-func decodeItem(src string, i int) (interface{}, int, error) {
-	if i >= len(src) {
-		return nil, -1, WrongDecodeParamErr
+// a list or dictionary whose end has not been reached
+type openItem struct {
+	list   List
+	dict   Dict
+	key    string
+	hasKey bool
+}
+
+func (o *openItem) add(item interface{}) error {
+	if o.dict == nil {
+		o.list = append(o.list, item)
+		return nil
 	}
-	if src[i] == 'i' {
-		return innerDecodeInteger(src, i)
-	} else if src[i] == 'l' {
-		return innerDecodeSlice(src, i)
-	} else if src[i] == 'd' {
-		return innerDecodeDict(src, i)
-	} else if src[i] >= '0' && src[i] <= '9' {
-		return innerDecodeString(src, i)
-	} else {
-		return nil, -1, WrongDecodeParamErr
+	if o.hasKey {
+		o.dict[o.key] = item
+		o.hasKey = false
+		return nil
+	}
+	o.key, o.hasKey = item.(string)
+	if !o.hasKey {
+		return WrongDecodeParamErr
+	}
+	return nil
+}
+
+// decode the list or dictionary at start, the input decides how deep it is nested, so never recursive
+func decodeNested(src string, start int) (interface{}, int, error) {
+	stack := make([]openItem, 0, 8)
+	i := start
+	for i < len(src) {
+		var item interface{}
+		var err error
+		next := i + 1
+		if src[i] == 'l' {
+			stack = append(stack, openItem{list: List{}})
+			i = next
+			continue
+		} else if src[i] == 'd' {
+			stack = append(stack, openItem{dict: Dict{}})
+			i = next
+			continue
+		} else if src[i] == 'i' {
+			item, next, err = innerDecodeInteger(src, i)
+		} else if src[i] >= '0' && src[i] <= '9' {
+			item, next, err = innerDecodeString(src, i)
+		} else if src[i] == 'e' {
+			last := stack[len(stack)-1]
+			stack = stack[:len(stack)-1]
+			if last.dict == nil {
+				item = last.list
+			} else {
+				item = last.dict
+			}
+			if last.hasKey {
+				err = WrongDecodeParamErr
+			}
+		} else {
+			err = WrongDecodeParamErr
+		}
+		if err != nil {
+			return nil, -1, err
+		}
+		if len(stack) == 0 {
+			return item, next, nil
+		}
+		if err = stack[len(stack)-1].add(item); err != nil {
+			return nil, -1, err
+		}
+		i = next
 	}
+	return nil, -1, WrongDecodeParamErr
 }
 
 func EncodeDict(src Dict) (string, error) {
@@ -278,33 +325,11 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		return nil, -1, WrongDecodeParamErr
 	}
 
-	result := make(Dict)
-
-	i := start + 1
-	for i < len(src) && src[i] != 'e' {
-		ktmp, next, err := decodeItem(src, i)
-		if err != nil {
-			return nil, -1, err
-		}
-
-		key, ok := ktmp.(string)
-		if !ok {
-			return nil, -1, WrongDecodeParamErr
-		}
-
-		val, next, err := decodeItem(src, next)
-		if err != nil {
-			return nil, -1, err
-		}
-
-		result[key] = val
-		i = next
-	}
-
-	if i >= len(src) {
-		return nil, -1, WrongDecodeParamErr
+	result, next, err := decodeNested(src, start)
+	if err != nil {
+		return nil, -1, err
 	}
-	return result, i + 1, nil
+	return result.(Dict), next, nil
 }
 
 func indexFirstByteInStr(str string, start, end int, ch byte) int {
-- 
2.43.0

