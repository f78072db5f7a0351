From 1e9b418be11becb4350d40b264727f47e307d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 01/23] fix: keep the current interval when retain is shorter
 than the interval

---
 aggregator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aggregator.go b/aggregator.go
index 951aacc..e24aa39 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -55,6 +55,10 @@ AGGREGATE_LOOP:
 
 func newAggregator(intervalDuration time.Duration, retain time.Duration) *aggregator {
 	maxIntervals := int(retain / intervalDuration)
+	if maxIntervals < 1 {
+		// We always hold at least the current interval.
+		maxIntervals = 1
+	}
 	return &aggregator{
 		intervalDuration:     intervalDuration,
 		retain:               retain,
-- 
2.43.0


From e89684882bfcd3ce144b601bb9232941b95210ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:29 +0000
Subject: [PATCH 02/23] fix: ignore min and max of a side without measurements
 when merging timers

---
 interval_aggregation_merge.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index eaa776e..f326d70 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -27,15 +27,18 @@ func (intoJob *JobAggregation) merge(fromJob *JobAggregation) {
 }
 
 func (intoTa *TimerAggregation) merge(fromTa *TimerAggregation) {
+	// The min and max of a side without measurements are meaningless.
+	if fromTa.Count != 0 {
+		if intoTa.Count == 0 || fromTa.NanosMin < intoTa.NanosMin {
+			intoTa.NanosMin = fromTa.NanosMin
+		}
+		if intoTa.Count == 0 || fromTa.NanosMax > intoTa.NanosMax {
+			intoTa.NanosMax = fromTa.NanosMax
+		}
+	}
 	intoTa.Count += fromTa.Count
 	intoTa.NanosSum += fromTa.NanosSum
 	intoTa.NanosSumSquares += fromTa.NanosSumSquares
-	if fromTa.NanosMin < intoTa.NanosMin {
-		intoTa.NanosMin = fromTa.NanosMin
-	}
-	if fromTa.NanosMax > intoTa.NanosMax {
-		intoTa.NanosMax = fromTa.NanosMax
-	}
 }
 
 func (intoAm *aggregationMaps) merge(fromAm *aggregationMaps) {
-- 
2.43.0


From 7d632b7a19f0c37affd644ee035af30b541f2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:40 +0000
Subject: [PATCH 03/23] fix: do not interpret the /health JSON as a format
 string

---
 json_polling_sink_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 7bd4a0c..40dac13 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -31,7 +31,7 @@ func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
 			renderError(rw, err)
 			return
 		}
-		fmt.Fprintf(rw, string(jsonData))
+		rw.Write(jsonData)
 	} else {
 		renderNotFound(rw)
 	}
-- 
2.43.0


From 0044b6b48dff736b56228a69bc4ff5e1b6cb671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 04/23] fix: StatsD drain no longer swallows concurrent drains
 and stops

A drain or stop received while draining was dropped, and its caller waited for ever.
---
 statsd_sink.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index a0b8868..639406f 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -166,17 +166,31 @@ LOOP:
 	for cmd := range cmdChan {
 		switch cmd.Kind {
 		case statsdCmdKindDrain:
+			drains, stop := 1, false
 		DRAIN_LOOP:
-			for {
+			for !stop {
 				select {
 				case cmd := <-cmdChan:
-					s.processCmd(&cmd)
+					switch cmd.Kind {
+					case statsdCmdKindDrain:
+						drains++
+					case statsdCmdKindStop:
+						stop = true
+					default:
+						s.processCmd(&cmd)
+					}
 				default:
-					s.flush()
-					s.drainDoneChan <- struct{}{}
 					break DRAIN_LOOP
 				}
 			}
+			s.flush()
+			for ; drains > 0; drains-- {
+				s.drainDoneChan <- struct{}{}
+			}
+			if stop {
+				s.stopDoneChan <- struct{}{}
+				break LOOP
+			}
 		case statsdCmdKindStop:
 			s.stopDoneChan <- struct{}{}
 			break LOOP
-- 
2.43.0


From 2b8c002aeb6dd5c41ecc7dc0730495a9df3fd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:19 +0000
Subject: [PATCH 05/23] fix: close the body of Librato's responses

---
 sinks/librato/sink.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index a015cd2..63cb60f 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -303,11 +303,14 @@ func (s *Sink) send() error {
 	}
 	req.Header.Add("Content-Type", "application/json")
 	req.SetBasicAuth(s.libratoUser, s.libratoApiKey)
-	_, err = s.httpClient.Do(req)
+	resp, err := s.httpClient.Do(req)
+	if err != nil {
+		return err
+	}
 
 	//fmt.Println(resp.Status)
 
-	return err
+	return resp.Body.Close()
 }
 
 // valid librato charactors: A-Za-z0-9.:-_
-- 
2.43.0


From cc0d9963f3990e0b3ee211235cde06fada4217cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:00 +0000
Subject: [PATCH 06/23] fix: close the body of Bugsnag's responses

---
 sinks/bugsnag/api.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index f5d6539..49cfe7c 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -112,6 +112,7 @@ func Notify(config *Config, jobName string, eventName string, err error, trace *
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return err
-- 
2.43.0


From 1f3609d76a3bdc3ffda166e0c6675350bdf83e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:17 +0000
Subject: [PATCH 07/23] fix: send the key/values Bugsnag errors were reported
 with

---
 sinks/bugsnag/sink.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 16a2c9f..cdf2680 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -46,7 +46,7 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvs}
+			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: copyKvs(kvs)}
 		}
 	case *health.MutedError:
 	// Do nothing!
@@ -55,6 +55,18 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	}
 }
 
+// copyKvs makes a copy because the error is sent later, when kvs may have been changed.
+func copyKvs(kvs map[string]string) map[string]string {
+	if kvs == nil {
+		return nil
+	}
+	kvs2 := make(map[string]string, len(kvs))
+	for k, v := range kvs {
+		kvs2[k] = v
+	}
+	return kvs2
+}
+
 func (s *Sink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {
 	// no-op
 }
-- 
2.43.0


From 814b1430c8227716d115fb6418aa826bae172e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 08/23] fix: do not take files beside the Go installation for
 system files

---
 stack/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stack/frame.go b/stack/frame.go
index a8b042c..062fe0e 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -67,5 +67,5 @@ var goroot = runtime.GOROOT()
 
 // isSystemPackage returns true iff the package is a system package like 'runtime' or 'net/http'
 func isSystemPackage(file, pkg string) bool {
-	return strings.HasPrefix(file, goroot)
+	return strings.HasPrefix(file, strings.TrimRight(goroot, "/")+"/")
 }
-- 
2.43.0


From 0e4654454ac5e0c30be6fa0843d53dd61ec0df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 09/23] fix: merge intervals of healthd's hosts across time
 zones

---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index b2013cb..cf56860 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -245,6 +245,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			// Hosts may be in different time zones, but times are compared with ==.
+			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
 				InstanceId: resp.InstanceId,
-- 
2.43.0


From 9e611bd33cb85b587dffa929e32facc9e2b5dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 10/23] fix: do not interpret healthd's JSON as a format string

---
 healthd/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 0334f22..9bcf928 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -185,7 +185,7 @@ func renderJson(rw http.ResponseWriter, data interface{}) {
 		renderError(rw, err)
 		return
 	}
-	fmt.Fprintf(rw, string(jsonData))
+	rw.Write(jsonData)
 }
 
 func renderNotFound(rw http.ResponseWriter) {
-- 
2.43.0


From 388770fdcab6ae0ec6fd436f724b97dc819c9252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:20 +0000
Subject: [PATCH 11/23] fix: healthd's standard deviation is never NaN

---
 healthd/api.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 9bcf928..e25ac2f 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -322,8 +322,11 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 				stddev = 0
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
-				div := float64(j.Count * (j.Count - 1))
-				stddev = math.Sqrt(num / div)
+				div := float64(j.Count) * float64(j.Count-1)
+				// rounding can make a variance of zero negative
+				if variance := num / div; variance > 0 {
+					stddev = math.Sqrt(variance)
+				}
 			}
 		}
 		job := &Job{
-- 
2.43.0


From 83cee60a89ecdd762003716355b573e9d35737a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:26 +0000
Subject: [PATCH 12/23] fix: healthd ignores answers without a positive
 interval duration

---
 healthd/healthd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index cf56860..299d644 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -236,8 +236,13 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
+		if resp.IntervalDuration <= 0 {
+			fmt.Println("invalid interval duration: resp.IntervalDuration=", resp.IntervalDuration)
+			return
+		}
+
 		if hd.intervalDuration == 0 {
-			hd.intervalDuration = resp.IntervalDuration // TODO: validate this
+			hd.intervalDuration = resp.IntervalDuration
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
-- 
2.43.0


From eff6cff1f96d427397fa286bc3638b73a1d7d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:38 +0000
Subject: [PATCH 13/23] fix: null entries in a host's answer no longer crash
 healthd

---
 healthd/healthd.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 299d644..9748143 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -250,6 +250,11 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			if intAgg == nil { // null in the JSON
+				continue
+			}
+			dropNulls(intAgg)
+
 			// Hosts may be in different time zones, but times are compared with ==.
 			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
 
@@ -270,6 +275,31 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	}
 }
 
+// dropNulls removes the jobs, timers and error counters that are null in the JSON of intAgg. Merge requires that there are none.
+func dropNulls(intAgg *health.IntervalAggregation) {
+	drop := func(timers map[string]*health.TimerAggregation, errs map[string]*health.ErrorCounter) {
+		for k, v := range timers {
+			if v == nil {
+				delete(timers, k)
+			}
+		}
+		for k, v := range errs {
+			if v == nil {
+				delete(errs, k)
+			}
+		}
+	}
+
+	drop(intAgg.Timers, intAgg.EventErrs)
+	for k, v := range intAgg.Jobs {
+		if v == nil {
+			delete(intAgg.Jobs, k)
+		} else {
+			drop(v.Timers, v.EventErrs)
+		}
+	}
+}
+
 // purge purges old hostAggregations older than 5 intervals
 func (agg *HealthD) purge() {
 	var threshold = agg.intervalDuration * 5 // NOTE: this is arbitrary.
-- 
2.43.0


From 1864a1029f8552414e9c2c4498502cf899d0ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:43 +0000
Subject: [PATCH 14/23] fix: stack traces can be shared by goroutines

---
 stack/stack.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/stack/stack.go b/stack/stack.go
index 5c7dc61..91345f4 100644
--- a/stack/stack.go
+++ b/stack/stack.go
@@ -8,9 +8,9 @@ import (
 // MaxStackDepth is the maximum number of stackframes on any error.
 var MaxStackDepth = 50
 
+// Trace does not change once it is made, so that goroutines can share it.
 type Trace struct {
-	stack  []uintptr
-	frames []Frame
+	stack []uintptr
 }
 
 func NewTrace(skip int) *Trace {
@@ -23,15 +23,13 @@ func NewTrace(skip int) *Trace {
 
 // StackFrames returns an array of frames containing information about the stack.
 func (t *Trace) Frames() []Frame {
-	if t.frames == nil {
-		t.frames = make([]Frame, len(t.stack))
+	frames := make([]Frame, len(t.stack))
 
-		for i, pc := range t.stack {
-			t.frames[i] = NewFrame(pc)
-		}
+	for i, pc := range t.stack {
+		frames[i] = NewFrame(pc)
 	}
 
-	return t.frames
+	return frames
 }
 
 // Stack returns a formatted callstack.
-- 
2.43.0


From 98f725168b68c975a3ed99d1efc7ffb5045927a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:12 +0000
Subject: [PATCH 15/23] fix: comparing error samples no longer races with
 marking errors as emitted

---
 interval_aggregation.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/interval_aggregation.go b/interval_aggregation.go
index 6c2b37c..098c6b6 100644
--- a/interval_aggregation.go
+++ b/interval_aggregation.go
@@ -100,13 +100,24 @@ func (ec *ErrorCounter) addError(inputErr error) {
 	lastErr := ec.errorSamples[ec.errorSampleIndex]
 	if lastErr == nil {
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
-	} else if !reflect.DeepEqual(lastErr, inputErr) {
+	} else if !sameError(lastErr, inputErr) {
 		n := len(ec.errorSamples)
 		ec.errorSampleIndex = (ec.errorSampleIndex + 1) % n
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
 	}
 }
 
+// sameError tells whether two errors are alike. It does not look at Emitted, which is set by the goroutine that
+// reports the error after the sinks were given it.
+func sameError(err1, err2 error) bool {
+	unmuted1, ok1 := err1.(*UnmutedError)
+	unmuted2, ok2 := err2.(*UnmutedError)
+	if ok1 && ok2 {
+		return reflect.DeepEqual(unmuted1.Err, unmuted2.Err) && reflect.DeepEqual(unmuted1.Stack, unmuted2.Stack)
+	}
+	return reflect.DeepEqual(err1, err2)
+}
+
 func (ec *ErrorCounter) getErrorSamples() []error {
 	// Count how many non-nil errors are there so we can make a slice of the right size
 	count := 0
-- 
2.43.0


From 41ff248d4f45dedddfb587f69071195d0735ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:58 +0000
Subject: [PATCH 16/23] fix: reading metrics and emitting no longer hang around
 a shutdown

---
 aggregator.go        |  2 +-
 healthd/healthd.go   | 35 ++++++++++++++++++++++++++++-------
 json_polling_sink.go | 34 +++++++++++++++++++++++++---------
 3 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/aggregator.go b/aggregator.go
index e24aa39..5dc921a 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -31,7 +31,7 @@ AGGREGATE_LOOP:
 	for {
 		select {
 		case <-doneChan:
-			sink.doneDoneChan <- 1
+			close(sink.doneDoneChan)
 			break AGGREGATE_LOOP
 		case cmd := <-cmdChan:
 			if cmd.Kind == cmdKindEvent {
diff --git a/healthd/healthd.go b/healthd/healthd.go
index 9748143..2fd97e3 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -94,8 +94,11 @@ func StartNewHealthD(monitoredHostPorts []string, serverHostPort string, stream
 
 func (hd *HealthD) Stop() {
 	atomic.StoreInt64(&hd.stopFlag, 1)
-	hd.stopAggregator <- true
-	<-hd.stopStopAggregator
+	select {
+	case hd.stopAggregator <- true:
+		<-hd.stopStopAggregator
+	case <-hd.stopStopAggregator:
+	}
 	hd.stopHTTP()
 }
 
@@ -149,7 +152,7 @@ AGGREGATE_LOOP:
 		case hostsChan := <-hostsChanChan:
 			hostsChan <- hd.memorySafeHosts()
 		case <-hd.stopAggregator:
-			hd.stopStopAggregator <- true
+			close(hd.stopStopAggregator)
 			break AGGREGATE_LOOP
 		}
 	}
@@ -176,8 +179,17 @@ func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 		return nil
 	}
 	intervalsChan := make(chan []*health.IntervalAggregation)
-	hd.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case hd.intervalsChanChan <- intervalsChan:
+	case <-hd.stopStopAggregator:
+		return nil
+	}
+	select {
+	case intervals := <-intervalsChan:
+		return intervals
+	case <-hd.stopStopAggregator:
+		return nil
+	}
 }
 
 func (hd *HealthD) getHosts() []*HostStatus {
@@ -185,8 +197,17 @@ func (hd *HealthD) getHosts() []*HostStatus {
 		return nil
 	}
 	hostsChan := make(chan []*HostStatus)
-	hd.hostsChanChan <- hostsChan
-	return <-hostsChan
+	select {
+	case hd.hostsChanChan <- hostsChan:
+	case <-hd.stopStopAggregator:
+		return nil
+	}
+	select {
+	case hosts := <-hostsChan:
+		return hosts
+	case <-hd.stopStopAggregator:
+		return nil
+	}
 }
 
 func (agg *HealthD) memorySafeIntervals() []*health.IntervalAggregation {
diff --git a/json_polling_sink.go b/json_polling_sink.go
index f0cc401..54f8c85 100644
--- a/json_polling_sink.go
+++ b/json_polling_sink.go
@@ -49,32 +49,48 @@ func NewJsonPollingSink(intervalDuration time.Duration, retain time.Duration) *J
 }
 
 func (s *JsonPollingSink) ShutdownServer() {
-	s.doneChan <- 1
-	<-s.doneDoneChan
+	select {
+	case s.doneChan <- 1:
+		<-s.doneDoneChan
+	case <-s.doneDoneChan:
+	}
+}
+
+// emit hands cmd to the aggregator. There is none after ShutdownServer, and then cmd is dropped.
+func (s *JsonPollingSink) emit(cmd *emitCmd) {
+	select {
+	case s.cmdChan <- cmd:
+	case <-s.doneDoneChan:
+	}
 }
 
 func (s *JsonPollingSink) EmitEvent(job string, event string, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindEvent, Job: job, Event: event}
+	s.emit(&emitCmd{Kind: cmdKindEvent, Job: job, Event: event})
 }
 
 func (s *JsonPollingSink) EmitEventErr(job string, event string, inputErr error, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindEventErr, Job: job, Event: event, Err: inputErr}
+	s.emit(&emitCmd{Kind: cmdKindEventErr, Job: job, Event: event, Err: inputErr})
 }
 
 func (s *JsonPollingSink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos}
+	s.emit(&emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos})
 }
 
 func (s *JsonPollingSink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindGauge, Job: job, Event: event, Value: value}
+	s.emit(&emitCmd{Kind: cmdKindGauge, Job: job, Event: event, Value: value})
 }
 
 func (s *JsonPollingSink) EmitComplete(job string, status CompletionStatus, nanos int64, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindComplete, Job: job, Status: status, Nanos: nanos}
+	s.emit(&emitCmd{Kind: cmdKindComplete, Job: job, Status: status, Nanos: nanos})
 }
 
+// GetMetrics returns the retained intervals, or nil after ShutdownServer.
 func (s *JsonPollingSink) GetMetrics() []*IntervalAggregation {
 	intervalsChan := make(chan []*IntervalAggregation)
-	s.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case s.intervalsChanChan <- intervalsChan:
+		return <-intervalsChan
+	case <-s.doneDoneChan:
+		return nil
+	}
 }
-- 
2.43.0


From 4b0a1009c740adc1c6a14e8e65301215bc264b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:17 +0000
Subject: [PATCH 17/23] fix: healthd's API no longer races with the first
 answer of a host

---
 healthd/api.go     |  8 ++++----
 healthd/healthd.go | 12 +++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index e25ac2f..6ff31cf 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -133,7 +133,7 @@ func (c *apiContext) HealthMiddleware(rw web.ResponseWriter, r *web.Request, nex
 func (c *apiContext) Aggregations(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	resp := &ApiResponseAggregations{
-		apiResponse:  getApiResponse(c.hd.intervalDuration),
+		apiResponse:  getApiResponse(c.hd.getIntervalDuration()),
 		Aggregations: aggregations,
 	}
 	renderJson(rw, resp)
@@ -143,7 +143,7 @@ func (c *apiContext) Overall(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	overall := combineAggregations(aggregations)
 	resp := &ApiResponseAggregationsOverall{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Overall:     overall,
 	}
 	renderJson(rw, resp)
@@ -156,7 +156,7 @@ func (c *apiContext) Jobs(rw web.ResponseWriter, r *web.Request) {
 	overall := combineAggregations(aggregations)
 	jobs := filterJobs(overall, sort, limit)
 	resp := &ApiResponseJobs{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Jobs:        jobs,
 	}
 	renderJson(rw, resp)
@@ -166,7 +166,7 @@ func (c *apiContext) Hosts(rw web.ResponseWriter, r *web.Request) {
 	hosts := c.hd.getHosts()
 	sort.Sort(HostStatusByHostPort(hosts))
 	resp := &ApiResponseHosts{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Hosts:       hosts,
 	}
 	renderJson(rw, resp)
diff --git a/healthd/healthd.go b/healthd/healthd.go
index 2fd97e3..a159712 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -13,7 +13,9 @@ type HealthD struct {
 	stream *health.Stream
 
 	// How long is each aggregation interval. Eg, 1 minute
-	intervalDuration time.Duration
+	// Written by the aggregator only; other goroutines use getIntervalDuration.
+	intervalDuration      time.Duration
+	intervalDurationMutex sync.Mutex
 
 	// Retain controls how many metrics interval we keep. Eg, 5 minutes
 	retain time.Duration
@@ -192,6 +194,12 @@ func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 	}
 }
 
+func (hd *HealthD) getIntervalDuration() time.Duration {
+	hd.intervalDurationMutex.Lock()
+	defer hd.intervalDurationMutex.Unlock()
+	return hd.intervalDuration
+}
+
 func (hd *HealthD) getHosts() []*HostStatus {
 	if hd.shouldStop() {
 		return nil
@@ -263,7 +271,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		if hd.intervalDuration == 0 {
+			hd.intervalDurationMutex.Lock()
 			hd.intervalDuration = resp.IntervalDuration
+			hd.intervalDurationMutex.Unlock()
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
-- 
2.43.0


From 03df3c50db84dc331961ea5b672b7ed37e37b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:31 +0000
Subject: [PATCH 18/23] fix: a stopped Librato sink no longer blocks emissions
 and stops

---
 sinks/librato/sink.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index 63cb60f..2ca193d 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -111,28 +111,39 @@ func New(user, apiKey, prefix string) *Sink {
 }
 
 func (s *Sink) Stop() {
-	s.doneChan <- 1
-	<-s.doneDoneChan
+	select {
+	case s.doneChan <- 1:
+		<-s.doneDoneChan
+	case <-s.doneDoneChan:
+	}
+}
+
+// emit hands cmd to the sink's goroutine. There is none after Stop, and then cmd is dropped.
+func (s *Sink) emit(cmd *emitCmd) {
+	select {
+	case s.cmdChan <- cmd:
+	case <-s.doneDoneChan:
+	}
 }
 
 func (s *Sink) EmitEvent(job string, event string, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindEvent, Job: job, Event: event}
+	s.emit(&emitCmd{Kind: cmdKindEvent, Job: job, Event: event})
 }
 
 func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindEventErr, Job: job, Event: event, Err: inputErr}
+	s.emit(&emitCmd{Kind: cmdKindEventErr, Job: job, Event: event, Err: inputErr})
 }
 
 func (s *Sink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos}
+	s.emit(&emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos})
 }
 
 func (s *Sink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindGauge, Job: job, Event: event, Value: value}
+	s.emit(&emitCmd{Kind: cmdKindGauge, Job: job, Event: event, Value: value})
 }
 
 func (s *Sink) EmitComplete(job string, status health.CompletionStatus, nanos int64, kvs map[string]string) {
-	s.cmdChan <- &emitCmd{Kind: cmdKindComplete, Job: job, Status: status, Nanos: nanos}
+	s.emit(&emitCmd{Kind: cmdKindComplete, Job: job, Status: status, Nanos: nanos})
 }
 
 func (s *Sink) start() {
@@ -144,7 +155,7 @@ LIBRATO_LOOP:
 	for {
 		select {
 		case <-doneChan:
-			s.doneDoneChan <- 1
+			close(s.doneDoneChan)
 			break LIBRATO_LOOP
 		case cmd := <-cmdChan:
 			if cmd.Kind == cmdKindEvent {
-- 
2.43.0


From 3ccad8bd1440fe407443279f9c5f3ac94c6e46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:31 +0000
Subject: [PATCH 19/23] fix: a shut down Bugsnag sink no longer blocks errors
 and shutdowns

---
 sinks/bugsnag/sink.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index cdf2680..7f0d2e9 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -9,8 +9,9 @@ import (
 // This sink emits to a StatsD deaemon by sending it a UDP packet.
 type Sink struct {
 	*Config
-	cmdChan  chan *cmdEventErr
-	doneChan chan int
+	cmdChan      chan *cmdEventErr
+	doneChan     chan int
+	doneDoneChan chan int
 }
 
 type cmdEventErr struct {
@@ -28,9 +29,10 @@ func NewSink(config *Config) *Sink {
 	}
 
 	s := &Sink{
-		Config:   config,
-		cmdChan:  make(chan *cmdEventErr, maxChanSize),
-		doneChan: make(chan int),
+		Config:       config,
+		cmdChan:      make(chan *cmdEventErr, maxChanSize),
+		doneChan:     make(chan int),
+		doneDoneChan: make(chan int),
 	}
 
 	go errorProcessingLoop(s)
@@ -46,7 +48,11 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: copyKvs(kvs)}
+			select {
+			case s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: copyKvs(kvs)}:
+			case <-s.doneDoneChan:
+				// Nobody sends errors after ShutdownServer.
+			}
 		}
 	case *health.MutedError:
 	// Do nothing!
@@ -80,7 +86,11 @@ func (s *Sink) EmitComplete(job string, status health.CompletionStatus, nanos in
 }
 
 func (s *Sink) ShutdownServer() {
-	s.doneChan <- 1
+	select {
+	case s.doneChan <- 1:
+		<-s.doneDoneChan
+	case <-s.doneDoneChan:
+	}
 }
 
 func errorProcessingLoop(sink *Sink) {
@@ -91,6 +101,7 @@ PROCESSING_LOOP:
 	for {
 		select {
 		case <-doneChan:
+			close(sink.doneDoneChan)
 			break PROCESSING_LOOP
 		case cmd := <-cmdChan:
 			if err := Notify(sink.Config, cmd.Job, cmd.Event, cmd.Err, cmd.Err.Stack, cmd.Kvs); err != nil {
-- 
2.43.0


From 3025f045b4b2d4205864e2a87b83dd31162d4436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:45 +0000
Subject: [PATCH 20/23] fix: healthtop's screen froze once its rows filled the
 terminal

goterm's Flush gives up, keeping the old screen in its buffer, when there is
more than the terminal's height: a list of maxRows() rows was one line too long
because of the newline after the table, and hosts and --name were not limited.
---
 cmd/healthtop/hosts.go | 10 ++++++++--
 cmd/healthtop/jobs.go  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmd/healthtop/hosts.go b/cmd/healthtop/hosts.go
index 2fbcd43..0bf7b49 100644
--- a/cmd/healthtop/hosts.go
+++ b/cmd/healthtop/hosts.go
@@ -89,11 +89,17 @@ func printHosts(lastApiResponse *healthd.ApiResponseHosts, status *healthdStatus
 	table := goterm.NewTable(0, goterm.Width()-1, 5, ' ', 0)
 	fmt.Fprintf(table, "%s\n", strings.Join(columns, "\t"))
 
-	for _, host := range lastApiResponse.Hosts {
+	// With more rows than fit, goterm would stop updating the screen.
+	hosts := lastApiResponse.Hosts
+	if max := maxRows(); uint(len(hosts)) > max {
+		hosts = hosts[:max]
+	}
+
+	for _, host := range hosts {
 		printHost(table, host)
 	}
 
-	goterm.Println(table)
+	goterm.Print(table)
 }
 
 func printHost(table *goterm.Table, host *healthd.HostStatus) {
diff --git a/cmd/healthtop/jobs.go b/cmd/healthtop/jobs.go
index 77bf16a..4df57c2 100644
--- a/cmd/healthtop/jobs.go
+++ b/cmd/healthtop/jobs.go
@@ -139,11 +139,17 @@ func printJobs(lastApiResponse *healthd.ApiResponseJobs, status *healthdStatus)
 	table := goterm.NewTable(0, goterm.Width()-1, 5, ' ', 0)
 	fmt.Fprintf(table, "%s\n", strings.Join(columns, "\t"))
 
-	for _, job := range lastApiResponse.Jobs {
+	// With more rows than fit, goterm would stop updating the screen.
+	jobs := lastApiResponse.Jobs
+	if max := maxRows(); uint(len(jobs)) > max {
+		jobs = jobs[:max]
+	}
+
+	for _, job := range jobs {
 		printJob(table, job)
 	}
 
-	goterm.Println(table)
+	goterm.Print(table)
 }
 
 func printJob(table *goterm.Table, job *healthd.Job) {
-- 
2.43.0


From 618db0b8c421338e3c45cb183d3809a8f21e5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:45 +0000
Subject: [PATCH 21/23] fix: healthtop took an error response of healthd for
 success

It showed [success] and replaced the last data with an empty table.
---
 cmd/healthtop/hosts.go | 4 ++++
 cmd/healthtop/jobs.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/healthtop/hosts.go b/cmd/healthtop/hosts.go
index 0bf7b49..05b5636 100644
--- a/cmd/healthtop/hosts.go
+++ b/cmd/healthtop/hosts.go
@@ -48,6 +48,10 @@ func pollHealthDHosts(responses chan *healthd.ApiResponseHosts, errors chan erro
 		return
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != 200 {
+		errors <- fmt.Errorf("healthd responded with status code %d", resp.StatusCode)
+		return
+	}
 	body, err = ioutil.ReadAll(resp.Body)
 	if err != nil {
 		errors <- err
diff --git a/cmd/healthtop/jobs.go b/cmd/healthtop/jobs.go
index 4df57c2..2a529ee 100644
--- a/cmd/healthtop/jobs.go
+++ b/cmd/healthtop/jobs.go
@@ -73,6 +73,10 @@ func pollHealthDJobs(opts *jobOptions, responses chan *healthd.ApiResponseJobs,
 		return
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != 200 {
+		errors <- fmt.Errorf("healthd responded with status code %d", resp.StatusCode)
+		return
+	}
 	body, err = ioutil.ReadAll(resp.Body)
 	if err != nil {
 		errors <- err
-- 
2.43.0


From 49ba628b3d9ae08e7c2fa8f157d7b5f37d37b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 22/23] fix: healthd and its debouncer waited for each other
 when many hosts answered at once

---
 healthd/healthd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index a159712..85e6f66 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -145,7 +145,11 @@ AGGREGATE_LOOP:
 				hd.recalculateIntervals()
 			} else {
 				hd.consumePollResponse(resp)
-				recalcIntervalsRequest <- struct{}{}
+				select {
+				case recalcIntervalsRequest <- struct{}{}:
+				default:
+					// Plenty of requests are waiting already. Don't wait for the debouncer, it may be waiting for us.
+				}
 			}
 		case <-recalcIntervals:
 			hd.recalculateIntervals()
-- 
2.43.0


From 092b73ff614c04e1fa36659b88d53955a16f6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 23/23] fix: an error that was reported before is not written
 to when it is reported again

Goroutines that report one already reported error raced on its Emitted field.
---
 health.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/health.go b/health.go
index 22ee16f..fa54cc5 100644
--- a/health.go
+++ b/health.go
@@ -120,7 +120,7 @@ func (j *Job) EventErr(eventName string, err error) error {
 	for _, sink := range j.Stream.Sinks {
 		sink.EmitEventErr(j.JobName, eventName, err, allKvs)
 	}
-	if err, ok := err.(*UnmutedError); ok {
+	if err, ok := err.(*UnmutedError); ok && !err.Emitted {
 		err.Emitted = true
 	}
 	return err
@@ -132,7 +132,7 @@ func (j *Job) EventErrKv(eventName string, err error, kvs map[string]string) err
 	for _, sink := range j.Stream.Sinks {
 		sink.EmitEventErr(j.JobName, eventName, err, allKvs)
 	}
-	if err, ok := err.(*UnmutedError); ok {
+	if err, ok := err.(*UnmutedError); ok && !err.Emitted {
 		err.Emitted = true
 	}
 	return err
-- 
2.43.0

