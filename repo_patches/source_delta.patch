From 0379859c85299d9ba950460be1fd7584b3434320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:50 +0000
Subject: [PATCH 01/23] fix: serve /health JSON verbatim instead of as a format
 string

---
 json_polling_sink_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 7bd4a0c..40dac13 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -31,7 +31,7 @@ func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
 			renderError(rw, err)
 			return
 		}
-		fmt.Fprintf(rw, string(jsonData))
+		rw.Write(jsonData)
 	} else {
 		renderNotFound(rw)
 	}
-- 
2.43.0


From 435ef8386586297907ef69988cccbf2c51fe40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:51 +0000
Subject: [PATCH 02/23] fix: a timer without samples does not contribute a
 minimum or maximum when merged

---
 interval_aggregation_merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index eaa776e..c002acb 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -27,6 +27,14 @@ func (intoJob *JobAggregation) merge(fromJob *JobAggregation) {
 }
 
 func (intoTa *TimerAggregation) merge(fromTa *TimerAggregation) {
+	// A timer without samples (eg, of a job that hasn't completed yet) has no min or max.
+	if fromTa.Count == 0 {
+		return
+	}
+	if intoTa.Count == 0 {
+		*intoTa = *fromTa
+		return
+	}
 	intoTa.Count += fromTa.Count
 	intoTa.NanosSum += fromTa.NanosSum
 	intoTa.NanosSumSquares += fromTa.NanosSumSquares
-- 
2.43.0


From 8d2d8fcb774438803f2a05110850e6fe92f23f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 03/23] fix: a drain or stop arriving while a StatsD sink
 drains is not swallowed, and a drain racing a stop returns

---
 statsd_sink.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index a0b8868..d84a067 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"net"
 	"strconv"
+	"sync"
 	"time"
 )
 
@@ -44,9 +45,12 @@ var defaultStatsDOptions = StatsDSinkOptions{SanitizationFunc: sanitizeKey}
 type StatsDSink struct {
 	options StatsDSinkOptions
 
-	cmdChan       chan statsdEmitCmd
-	drainDoneChan chan struct{}
-	stopDoneChan  chan struct{}
+	cmdChan      chan statsdEmitCmd
+	stopDoneChan chan struct{}
+
+	// stoppedChan is closed when the sink stops, so that a concurrent Drain doesn't wait forever.
+	stoppedChan chan struct{}
+	stopOnce    sync.Once
 
 	flushPeriod time.Duration
 
@@ -82,6 +86,9 @@ type statsdEmitCmd struct {
 	Nanos  int64
 	Value  float64
 	Status CompletionStatus
+
+	// DrainDone is closed when a drain is done. Each drain has its own.
+	DrainDone chan struct{}
 }
 
 const cmdChanBuffSize = 8192 // random-ass-guess
@@ -102,8 +109,8 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 		udpConn:       c.(*net.UDPConn),
 		udpAddr:       ra,
 		cmdChan:       make(chan statsdEmitCmd, cmdChanBuffSize),
-		drainDoneChan: make(chan struct{}),
 		stopDoneChan:  make(chan struct{}),
+		stoppedChan:   make(chan struct{}),
 		flushPeriod:   100 * time.Millisecond,
 		prefixBuffers: make(map[eventKey]prefixBuffer),
 	}
@@ -128,8 +135,16 @@ func (s *StatsDSink) Stop() {
 }
 
 func (s *StatsDSink) Drain() {
-	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain}
-	<-s.drainDoneChan
+	done := make(chan struct{})
+	select {
+	case s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain, DrainDone: done}:
+	case <-s.stoppedChan:
+		return
+	}
+	select {
+	case <-done:
+	case <-s.stoppedChan:
+	}
 }
 
 func (s *StatsDSink) EmitEvent(job string, event string, kvs map[string]string) {
@@ -166,18 +181,11 @@ LOOP:
 	for cmd := range cmdChan {
 		switch cmd.Kind {
 		case statsdCmdKindDrain:
-		DRAIN_LOOP:
-			for {
-				select {
-				case cmd := <-cmdChan:
-					s.processCmd(&cmd)
-				default:
-					s.flush()
-					s.drainDoneChan <- struct{}{}
-					break DRAIN_LOOP
-				}
-			}
+			// Everything recorded before the drain was queued before it, and has been processed by now.
+			s.flush()
+			close(cmd.DrainDone)
 		case statsdCmdKindStop:
+			s.stopOnce.Do(func() { close(s.stoppedChan) })
 			s.stopDoneChan <- struct{}{}
 			break LOOP
 		case statsdCmdKindFlush:
-- 
2.43.0


From b1a0bffcd7655456eb2ec8fd426f3237073a8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 04/23] fix: stopping a StatsD sink ends its flush ticker
 goroutine

---
 statsd_sink.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index d84a067..291849a 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -171,9 +171,19 @@ func (s *StatsDSink) loop() {
 	cmdChan := s.cmdChan
 
 	ticker := time.NewTicker(s.flushPeriod)
+	tickerDone := make(chan struct{})
 	go func() {
-		for _ = range ticker.C {
-			cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
+		for {
+			select {
+			case <-ticker.C:
+				select {
+				case cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}:
+				case <-tickerDone:
+					return
+				}
+			case <-tickerDone:
+				return
+			}
 		}
 	}()
 
@@ -185,6 +195,8 @@ LOOP:
 			s.flush()
 			close(cmd.DrainDone)
 		case statsdCmdKindStop:
+			ticker.Stop()
+			close(tickerDone)
 			s.stopOnce.Do(func() { close(s.stoppedChan) })
 			s.stopDoneChan <- struct{}{}
 			break LOOP
@@ -194,8 +206,6 @@ LOOP:
 			s.processCmd(&cmd)
 		}
 	}
-
-	ticker.Stop()
 }
 
 func (s *StatsDSink) processCmd(cmd *statsdEmitCmd) {
-- 
2.43.0


From 86e508e055ff2d97790c4328cd3492b822533cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:01 +0000
Subject: [PATCH 05/23] fix: concurrent readers of a stack trace never see
 unfilled frames

---
 stack/stack.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/stack/stack.go b/stack/stack.go
index 5c7dc61..2f902f0 100644
--- a/stack/stack.go
+++ b/stack/stack.go
@@ -9,8 +9,7 @@ import (
 var MaxStackDepth = 50
 
 type Trace struct {
-	stack  []uintptr
-	frames []Frame
+	stack []uintptr
 }
 
 func NewTrace(skip int) *Trace {
@@ -22,16 +21,15 @@ func NewTrace(skip int) *Trace {
 }
 
 // StackFrames returns an array of frames containing information about the stack.
+// It's not cached: several goroutines (eg, of several sinks) can ask for the frames of the same trace at once.
 func (t *Trace) Frames() []Frame {
-	if t.frames == nil {
-		t.frames = make([]Frame, len(t.stack))
+	frames := make([]Frame, len(t.stack))
 
-		for i, pc := range t.stack {
-			t.frames[i] = NewFrame(pc)
-		}
+	for i, pc := range t.stack {
+		frames[i] = NewFrame(pc)
 	}
 
-	return t.frames
+	return frames
 }
 
 // Stack returns a formatted callstack.
-- 
2.43.0


From 34c49f2fee807886cb0af501ddbe34aac0e9752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:57 +0000
Subject: [PATCH 06/23] fix: the Bugsnag sink notifies the key/values as they
 were when the error was recorded

---
 sinks/bugsnag/sink.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 16a2c9f..942d938 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -46,7 +46,12 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvs}
+			// The error is posted later, in another goroutine. By then, kvs can have been changed by its owner.
+			kvsCopy := make(map[string]string, len(kvs))
+			for k, v := range kvs {
+				kvsCopy[k] = v
+			}
+			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvsCopy}
 		}
 	case *health.MutedError:
 	// Do nothing!
-- 
2.43.0


From 2fdf614d2d489b1acb2ab7e2e1146098d63c6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:47 +0000
Subject: [PATCH 07/23] fix: librato sink leaked a connection per submission
 (response body never closed)

---
 sinks/librato/sink.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index a015cd2..6c978dc 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -303,11 +303,15 @@ func (s *Sink) send() error {
 	}
 	req.Header.Add("Content-Type", "application/json")
 	req.SetBasicAuth(s.libratoUser, s.libratoApiKey)
-	_, err = s.httpClient.Do(req)
+	resp, err := s.httpClient.Do(req)
+	if nil != err {
+		return err
+	}
+	resp.Body.Close()
 
 	//fmt.Println(resp.Status)
 
-	return err
+	return nil
 }
 
 // valid librato charactors: A-Za-z0-9.:-_
-- 
2.43.0


From 9502ca53490f97a6a4d3ba977b67aab1fd09b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:24 +0000
Subject: [PATCH 08/23] fix: stack frames of inlined functions, and of their
 callers, named the wrong function and line

---
 stack/frame.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stack/frame.go b/stack/frame.go
index a8b042c..b50ffeb 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -24,11 +24,12 @@ func NewFrame(pc uintptr) Frame {
 	if frame.Func() == nil {
 		return frame
 	}
-	frame.Package, frame.Name = packageAndName(frame.Func())
 
-	// pc -1 because the program counters we use are usually return addresses,
-	// and we want to show the line that corresponds to the function call
-	frame.File, frame.LineNumber = frame.Func().FileLine(pc - 1)
+	// The program counters we use are usually return addresses, and we want to show the line that corresponds to the
+	// function call. CallersFrames knows that, and also which function it is if the compiler inlined it.
+	rf, _ := runtime.CallersFrames([]uintptr{pc}).Next()
+	frame.Package, frame.Name = packageAndName(rf.Function)
+	frame.File, frame.LineNumber = rf.File, rf.Line
 	frame.IsSystemPackage = isSystemPackage(frame.File, frame.Package)
 
 	return frame
@@ -46,8 +47,7 @@ func (frame *Frame) String() string {
 	return fmt.Sprintf("%s:%d %s", frame.File, frame.LineNumber, frame.Name)
 }
 
-func packageAndName(fn *runtime.Func) (string, string) {
-	name := fn.Name()
+func packageAndName(name string) (string, string) {
 	pkg := ""
 
 	// we first remove the path prefix if there is one.
-- 
2.43.0


From 91ba3c05e517a6ac8ad4b147f824fae683ae5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:09 +0000
Subject: [PATCH 09/23] fix: shutting down a JSON polling sink left its HTTP
 server listening and polls hanging

---
 json_polling_sink.go      | 25 +++++++++++++++++++++++--
 json_polling_sink_http.go |  8 +++++++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/json_polling_sink.go b/json_polling_sink.go
index f0cc401..ad92596 100644
--- a/json_polling_sink.go
+++ b/json_polling_sink.go
@@ -1,6 +1,8 @@
 package health
 
 import (
+	"net/http"
+	"sync"
 	"time"
 )
 
@@ -10,6 +12,12 @@ type JsonPollingSink struct {
 	doneChan          chan int
 	doneDoneChan      chan int
 	intervalsChanChan chan chan []*IntervalAggregation
+
+	// stoppedChan is closed once the aggregator has stopped
+	stoppedChan chan struct{}
+
+	serversMut sync.Mutex
+	servers    []*http.Server
 }
 
 type cmdKind int
@@ -41,6 +49,7 @@ func NewJsonPollingSink(intervalDuration time.Duration, retain time.Duration) *J
 		doneChan:          make(chan int),
 		doneDoneChan:      make(chan int),
 		intervalsChanChan: make(chan chan []*IntervalAggregation),
+		stoppedChan:       make(chan struct{}),
 	}
 
 	go startAggregator(intervalDuration, retain, s)
@@ -49,8 +58,16 @@ func NewJsonPollingSink(intervalDuration time.Duration, retain time.Duration) *J
 }
 
 func (s *JsonPollingSink) ShutdownServer() {
+	s.serversMut.Lock()
+	for _, server := range s.servers {
+		server.Close()
+	}
+	s.servers = nil
+	s.serversMut.Unlock()
+
 	s.doneChan <- 1
 	<-s.doneDoneChan
+	close(s.stoppedChan)
 }
 
 func (s *JsonPollingSink) EmitEvent(job string, event string, kvs map[string]string) {
@@ -75,6 +92,10 @@ func (s *JsonPollingSink) EmitComplete(job string, status CompletionStatus, nano
 
 func (s *JsonPollingSink) GetMetrics() []*IntervalAggregation {
 	intervalsChan := make(chan []*IntervalAggregation)
-	s.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case s.intervalsChanChan <- intervalsChan:
+		return <-intervalsChan
+	case <-s.stoppedChan:
+		return nil
+	}
 }
diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 40dac13..5ca3637 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -14,7 +14,13 @@ type HealthAggregationsResponse struct {
 }
 
 func (s *JsonPollingSink) StartServer(addr string) {
-	go http.ListenAndServe(addr, s)
+	server := &http.Server{Addr: addr, Handler: s}
+
+	s.serversMut.Lock()
+	s.servers = append(s.servers, server)
+	s.serversMut.Unlock()
+
+	go server.ListenAndServe()
 }
 
 func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From e5b229ef451749d4d1cabe28e79057be4e56a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 10/23] fix: serve healthd's JSON verbatim instead of as a
 format string

---
 healthd/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 0334f22..9bcf928 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -185,7 +185,7 @@ func renderJson(rw http.ResponseWriter, data interface{}) {
 		renderError(rw, err)
 		return
 	}
-	fmt.Fprintf(rw, string(jsonData))
+	rw.Write(jsonData)
 }
 
 func renderNotFound(rw http.ResponseWriter) {
-- 
2.43.0


From 93ae8ab11c4b7a1c164057b58bc5770fe79a612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 11/23] fix: a standard deviation rounded below zero is 0, not
 NaN (which failed every /healthd/jobs request)

---
 healthd/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 9bcf928..63d4871 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -323,7 +323,8 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
 				div := float64(j.Count * (j.Count - 1))
-				stddev = math.Sqrt(num / div)
+				// Rounding can make num slightly negative when all durations are alike.
+				stddev = math.Sqrt(math.Max(num/div, 0))
 			}
 		}
 		job := &Job{
-- 
2.43.0


From 49c64557e9de9a5ceae63f683c5452630fd14a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 12/23] fix: the same interval reported in different time zones
 is one interval

---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index b2013cb..68b6cdc 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -245,6 +245,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			// Intervals are identified by their start: hosts may report it in different time zones.
+			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
 				InstanceId: resp.InstanceId,
-- 
2.43.0


From 96195b81bb8a1c6373d6a38aacf0463cce1d2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 13/23] fix: healthd deadlocked when more than 64 hosts
 answered while a recalculation was due

---
 healthd/healthd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 68b6cdc..5e0e2bd 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -140,7 +140,12 @@ AGGREGATE_LOOP:
 				hd.recalculateIntervals()
 			} else {
 				hd.consumePollResponse(resp)
-				recalcIntervalsRequest <- struct{}{}
+				select {
+				case recalcIntervalsRequest <- struct{}{}:
+				default:
+					// Plenty of requests are pending already. Blocking here would deadlock
+					// with a debouncer that is waiting for us to receive from recalcIntervals.
+				}
 			}
 		case <-recalcIntervals:
 			hd.recalculateIntervals()
-- 
2.43.0


From 7feb9fa2d8fd2785758f565ad96fa5a326841052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:27 +0000
Subject: [PATCH 14/23] fix: a host answering with nulls or without a positive
 interval duration crashed healthd

---
 healthd/poll.go | 50 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/healthd/poll.go b/healthd/poll.go
index 548a43f..3974948 100644
--- a/healthd/poll.go
+++ b/healthd/poll.go
@@ -2,6 +2,8 @@ package healthd
 
 import (
 	"encoding/json"
+	"errors"
+	"fmt"
 	"github.com/gocraft/health"
 	"io/ioutil"
 	"net/http"
@@ -58,6 +60,13 @@ func poll(stream *health.Stream, hostPort string, responses chan<- *pollResponse
 		goto POLL_FINISH
 	}
 
+	if response.Code == 200 {
+		if err := validate(&response.HealthAggregationsResponse); err != nil {
+			response.Err = job.EventErr("poll.validate", err)
+			goto POLL_FINISH
+		}
+	}
+
 POLL_FINISH:
 
 	if response.Err != nil {
@@ -69,6 +78,47 @@ POLL_FINISH:
 	responses <- response
 }
 
+// validate makes sure that a response can be aggregated: JSON nulls decode to nil pointers,
+// and we divide by the interval duration.
+func validate(resp *health.HealthAggregationsResponse) error {
+	if resp.IntervalDuration <= 0 {
+		return fmt.Errorf("invalid interval duration: %d", resp.IntervalDuration)
+	}
+
+	for _, intAgg := range resp.IntervalAggregations {
+		if intAgg == nil {
+			return errors.New("null aggregation")
+		}
+		if err := validateMaps(intAgg.Timers, intAgg.EventErrs); err != nil {
+			return err
+		}
+		for name, job := range intAgg.Jobs {
+			if job == nil {
+				return fmt.Errorf("null job: %q", name)
+			}
+			if err := validateMaps(job.Timers, job.EventErrs); err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
+func validateMaps(timers map[string]*health.TimerAggregation, eventErrs map[string]*health.ErrorCounter) error {
+	for name, timer := range timers {
+		if timer == nil {
+			return fmt.Errorf("null timer: %q", name)
+		}
+	}
+	for name, counter := range eventErrs {
+		if counter == nil {
+			return fmt.Errorf("null error counter: %q", name)
+		}
+	}
+	return nil
+}
+
 func metricsUrl(hostPort string) string {
 	return "http://" + hostPort + "/health"
 }
-- 
2.43.0


From b3e122aa559b389a222f7431478703ce6a6548d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:27 +0000
Subject: [PATCH 15/23] fix: stopping healthd left its debouncer running
 forever

---
 healthd/debouncer.go | 7 ++++++-
 healthd/healthd.go   | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/healthd/debouncer.go b/healthd/debouncer.go
index fc752a3..812d258 100644
--- a/healthd/debouncer.go
+++ b/healthd/debouncer.go
@@ -4,13 +4,18 @@ import (
 	"time"
 )
 
+// The debouncer ends, and closes doit, when needitdone is closed.
 // A) don't fire more than every 2 seconds B) the time between an input and output should be at most 2 seconds
 func debouncer(doit chan<- struct{}, needitdone <-chan struct{}, threshold time.Duration, sleepTime time.Duration) {
 	var oldestNeedItDone time.Time
 
 	for {
 		select {
-		case <-needitdone:
+		case _, ok := <-needitdone:
+			if !ok {
+				close(doit)
+				return
+			}
 			if oldestNeedItDone.IsZero() {
 				oldestNeedItDone = now()
 			}
diff --git a/healthd/healthd.go b/healthd/healthd.go
index 5e0e2bd..da28fd5 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -158,6 +158,11 @@ AGGREGATE_LOOP:
 			break AGGREGATE_LOOP
 		}
 	}
+
+	// End the debouncer, which may be about to send on recalcIntervals.
+	close(recalcIntervalsRequest)
+	for range recalcIntervals {
+	}
 }
 
 // poll is meant to be alled in a new goroutine.
-- 
2.43.0


From cdf5df293393766e28269f454c68141686347f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:03 +0000
Subject: [PATCH 16/23] fix: healthtop took any JSON answer of healthd,
 whatever its status, for data

An answer with a status other than 200 (an error page in JSON, say) emptied
the table and was reported as success.
---
 cmd/healthtop/hosts.go | 4 ++++
 cmd/healthtop/jobs.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/healthtop/hosts.go b/cmd/healthtop/hosts.go
index 2fbcd43..ec8014a 100644
--- a/cmd/healthtop/hosts.go
+++ b/cmd/healthtop/hosts.go
@@ -48,6 +48,10 @@ func pollHealthDHosts(responses chan *healthd.ApiResponseHosts, errors chan erro
 		return
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		errors <- fmt.Errorf("healthd answered with status %d", resp.StatusCode)
+		return
+	}
 	body, err = ioutil.ReadAll(resp.Body)
 	if err != nil {
 		errors <- err
diff --git a/cmd/healthtop/jobs.go b/cmd/healthtop/jobs.go
index 77bf16a..57ec422 100644
--- a/cmd/healthtop/jobs.go
+++ b/cmd/healthtop/jobs.go
@@ -73,6 +73,10 @@ func pollHealthDJobs(opts *jobOptions, responses chan *healthd.ApiResponseJobs,
 		return
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		errors <- fmt.Errorf("healthd answered with status %d", resp.StatusCode)
+		return
+	}
 	body, err = ioutil.ReadAll(resp.Body)
 	if err != nil {
 		errors <- err
-- 
2.43.0


From a594727ba497faede015eefd4a53ffacc1240b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 17/23] fix: healthd's API read the interval duration while the
 aggregator was setting it

---
 healthd/api.go     |  8 ++++----
 healthd/healthd.go | 12 +++++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 63d4871..cb2a2e8 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -133,7 +133,7 @@ func (c *apiContext) HealthMiddleware(rw web.ResponseWriter, r *web.Request, nex
 func (c *apiContext) Aggregations(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	resp := &ApiResponseAggregations{
-		apiResponse:  getApiResponse(c.hd.intervalDuration),
+		apiResponse:  getApiResponse(c.hd.getIntervalDuration()),
 		Aggregations: aggregations,
 	}
 	renderJson(rw, resp)
@@ -143,7 +143,7 @@ func (c *apiContext) Overall(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	overall := combineAggregations(aggregations)
 	resp := &ApiResponseAggregationsOverall{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Overall:     overall,
 	}
 	renderJson(rw, resp)
@@ -156,7 +156,7 @@ func (c *apiContext) Jobs(rw web.ResponseWriter, r *web.Request) {
 	overall := combineAggregations(aggregations)
 	jobs := filterJobs(overall, sort, limit)
 	resp := &ApiResponseJobs{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Jobs:        jobs,
 	}
 	renderJson(rw, resp)
@@ -166,7 +166,7 @@ func (c *apiContext) Hosts(rw web.ResponseWriter, r *web.Request) {
 	hosts := c.hd.getHosts()
 	sort.Sort(HostStatusByHostPort(hosts))
 	resp := &ApiResponseHosts{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Hosts:       hosts,
 	}
 	renderJson(rw, resp)
diff --git a/healthd/healthd.go b/healthd/healthd.go
index da28fd5..d9f87d5 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -10,11 +10,13 @@ import (
 )
 
 type HealthD struct {
-	stream *health.Stream
-
 	// How long is each aggregation interval. Eg, 1 minute
+	// It's set by the aggregator while API requests read it: use getIntervalDuration outside of the aggregator.
+	// (First in the struct, so that it's aligned for atomic access.)
 	intervalDuration time.Duration
 
+	stream *health.Stream
+
 	// Retain controls how many metrics interval we keep. Eg, 5 minutes
 	retain time.Duration
 
@@ -190,6 +192,10 @@ func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 	return <-intervalsChan
 }
 
+func (hd *HealthD) getIntervalDuration() time.Duration {
+	return time.Duration(atomic.LoadInt64((*int64)(&hd.intervalDuration)))
+}
+
 func (hd *HealthD) getHosts() []*HostStatus {
 	if hd.shouldStop() {
 		return nil
@@ -247,7 +253,7 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
 		if hd.intervalDuration == 0 {
-			hd.intervalDuration = resp.IntervalDuration // TODO: validate this
+			atomic.StoreInt64((*int64)(&hd.intervalDuration), int64(resp.IntervalDuration)) // TODO: validate this
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
-- 
2.43.0


From ce87a10c888534c42de7c797d67086350fddfa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 18/23] fix: the Bugsnag sink did not default the release stage
 and host name as documented

---
 sinks/bugsnag/sink.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 942d938..9eeb577 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -26,6 +26,12 @@ func NewSink(config *Config) *Sink {
 	if config.Endpoint == "" {
 		config.Endpoint = "https://notify.bugsnag.com/"
 	}
+	if config.ReleaseStage == "" {
+		config.ReleaseStage = "production"
+	}
+	if config.Hostname == "" {
+		config.Hostname, _ = os.Hostname()
+	}
 
 	s := &Sink{
 		Config:   config,
-- 
2.43.0


From 58329fee0892335c941ee28836fecdc47eac3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 19/23] fix: the app version configured was never sent to
 Bugsnag

---
 sinks/bugsnag/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index f5d6539..e26e5a5 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -58,7 +58,7 @@ type payloadEvent struct {
 	// user
 
 	App struct {
-		// version
+		Version      string `json:"version,omitempty"`
 		ReleaseStage string `json:"releaseStage"`
 	} `json:"app"`
 
@@ -143,6 +143,7 @@ func newPayload(config *Config, jobName string, eventName string, err error, tra
 		Exceptions:     []payloadException{except},
 		Context:        jobName,
 	}
+	evt.App.Version = config.AppVersion
 	evt.App.ReleaseStage = config.ReleaseStage
 	evt.Device.Hostname = config.Hostname
 	evt.Metadata.Kvs = kvs
-- 
2.43.0


From 92ee1eaacbde1f75c1f2231c24e8c9cd17426343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 20/23] fix: the polling sink deep-compared errors while their
 owners were changing them

Error samples were compared with reflect.DeepEqual in the aggregator's goroutine:
a data race with EventErr, which sets UnmutedError.Emitted after handing the error
to the sinks, and with whatever else the application does to its error value.
---
 interval_aggregation.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interval_aggregation.go b/interval_aggregation.go
index 6c2b37c..dec6dce 100644
--- a/interval_aggregation.go
+++ b/interval_aggregation.go
@@ -1,7 +1,7 @@
 package health
 
 import (
-	"reflect"
+	"fmt"
 	"time"
 )
 
@@ -100,7 +100,9 @@ func (ec *ErrorCounter) addError(inputErr error) {
 	lastErr := ec.errorSamples[ec.errorSampleIndex]
 	if lastErr == nil {
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
-	} else if !reflect.DeepEqual(lastErr, inputErr) {
+	} else if fmt.Sprint(lastErr) != fmt.Sprint(inputErr) {
+		// Only what the errors say is compared. Their fields aren't ours to look at: we're called in another goroutine,
+		// while the one that recorded the error goes on using it (to begin with, it sets UnmutedError.Emitted).
 		n := len(ec.errorSamples)
 		ec.errorSampleIndex = (ec.errorSampleIndex + 1) % n
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
-- 
2.43.0


From da18252c3f17cf0046f747dcf77837ae2577d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 21/23] fix: polls of more than 64 hosts that were in progress
 when healthd was stopped never ended

---
 healthd/healthd.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index d9f87d5..c71cd49 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -118,8 +118,17 @@ func (hd *HealthD) pollAndAggregate() {
 
 	go debouncer(recalcIntervals, recalcIntervalsRequest, time.Second*2, time.Millisecond*300)
 
+	var polls sync.WaitGroup
+	startPoll := func() {
+		polls.Add(1)
+		go func() {
+			defer polls.Done()
+			hd.poll(responses)
+		}()
+	}
+
 	// Immediately poll for servers on healthd startup
-	go hd.poll(responses)
+	startPoll()
 
 AGGREGATE_LOOP:
 	for {
@@ -134,7 +143,7 @@ AGGREGATE_LOOP:
 		//  - A requset to shut down.
 		select {
 		case <-ticker:
-			go hd.poll(responses)
+			startPoll()
 			hd.purge()
 		case resp := <-responses:
 			if resp == nil {
@@ -165,6 +174,14 @@ AGGREGATE_LOOP:
 	close(recalcIntervalsRequest)
 	for range recalcIntervals {
 	}
+
+	// Let the polls in progress deliver what nobody needs anymore, so that they end.
+	go func() {
+		polls.Wait()
+		close(responses)
+	}()
+	for range responses {
+	}
 }
 
 // poll is meant to be alled in a new goroutine.
-- 
2.43.0


From 801d4cc2ced02233bf1284894658bd79d8f577f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 22/23] fix: API requests that were waiting for the aggregator
 when healthd was stopped never returned

---
 healthd/healthd.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index c71cd49..cd3e7b9 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -43,6 +43,9 @@ type HealthD struct {
 	stopAggregator     chan bool
 	stopStopAggregator chan bool
 	stopHTTP           func() bool
+
+	// stoppedChan is closed once the aggregator has stopped: nobody answers on intervalsChanChan and hostsChanChan then
+	stoppedChan chan struct{}
 }
 
 type HostStatus struct {
@@ -78,6 +81,7 @@ func StartNewHealthD(monitoredHostPorts []string, serverHostPort string, stream
 	hd.maxIntervals = 0       // We don't know this yet. See above.
 	hd.stopAggregator = make(chan bool)
 	hd.stopStopAggregator = make(chan bool)
+	hd.stoppedChan = make(chan struct{})
 
 	for _, hp := range monitoredHostPorts {
 		hd.hostStatus[hp] = &HostStatus{
@@ -170,6 +174,9 @@ AGGREGATE_LOOP:
 		}
 	}
 
+	// Let go of the API requests that are waiting for us.
+	close(hd.stoppedChan)
+
 	// End the debouncer, which may be about to send on recalcIntervals.
 	close(recalcIntervalsRequest)
 	for range recalcIntervals {
@@ -205,8 +212,17 @@ func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 		return nil
 	}
 	intervalsChan := make(chan []*health.IntervalAggregation)
-	hd.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case hd.intervalsChanChan <- intervalsChan:
+	case <-hd.stoppedChan:
+		return nil
+	}
+	select {
+	case intervals := <-intervalsChan:
+		return intervals
+	case <-hd.stoppedChan:
+		return nil
+	}
 }
 
 func (hd *HealthD) getIntervalDuration() time.Duration {
@@ -218,8 +234,17 @@ func (hd *HealthD) getHosts() []*HostStatus {
 		return nil
 	}
 	hostsChan := make(chan []*HostStatus)
-	hd.hostsChanChan <- hostsChan
-	return <-hostsChan
+	select {
+	case hd.hostsChanChan <- hostsChan:
+	case <-hd.stoppedChan:
+		return nil
+	}
+	select {
+	case hosts := <-hostsChan:
+		return hosts
+	case <-hd.stoppedChan:
+		return nil
+	}
 }
 
 func (agg *HealthD) memorySafeIntervals() []*health.IntervalAggregation {
-- 
2.43.0


From c9de603c69a10160f569b08a79118b45e903c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:14 +0000
Subject: [PATCH 23/23] fix: errors that the application wrapped itself,
 without a stack, crashed the Bugsnag sink

---
 sinks/bugsnag/api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index e26e5a5..77c986a 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -128,7 +128,11 @@ func newPayload(config *Config, jobName string, eventName string, err error, tra
 		ErrorClass: eventName,
 		Message:    err.Error(),
 	}
-	for _, frame := range trace.Frames() {
+	var frames []stack.Frame
+	if trace != nil { // it is nil if the application made the UnmutedError itself
+		frames = trace.Frames()
+	}
+	for _, frame := range frames {
 		pf := payloadFrame{
 			File:       frame.File,
 			LineNumber: frame.LineNumber,
-- 
2.43.0

