From 31fd3500f55ca01a9b02ddfa3677b906c7ad5788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:54 +0000
Subject: [PATCH 01/22] fix: write the /health JSON as is, not as a format
 string

A percent sign in a job or event name was taken for a formatting verb, so that
the response carried the wrong name or was not valid JSON.
---
 json_polling_sink_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 7bd4a0c..40dac13 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -31,7 +31,7 @@ func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
 			renderError(rw, err)
 			return
 		}
-		fmt.Fprintf(rw, string(jsonData))
+		rw.Write(jsonData)
 	} else {
 		renderNotFound(rw)
 	}
-- 
2.43.0


From 735159df8bdcb8b71280b24e54948f12fada3111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:54 +0000
Subject: [PATCH 02/22] fix: keep at least one interval when retain is shorter
 than the interval

With no room for any interval the aggregator goroutine panicked (index -1) at
its first tick or emission.
---
 aggregator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aggregator.go b/aggregator.go
index 951aacc..5db4c77 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -55,6 +55,9 @@ AGGREGATE_LOOP:
 
 func newAggregator(intervalDuration time.Duration, retain time.Duration) *aggregator {
 	maxIntervals := int(retain / intervalDuration)
+	if maxIntervals < 1 {
+		maxIntervals = 1 // the current interval is always kept
+	}
 	return &aggregator{
 		intervalDuration:     intervalDuration,
 		retain:               retain,
-- 
2.43.0


From 905c8bfba3b0c85bcd3b9892ab953034354d5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:56 +0000
Subject: [PATCH 03/22] fix: a NaN or infinite gauge no longer makes /health
 fail

JSON has no representation for these values, so one such gauge made every
/health request answer 500 until its interval had left the window.
---
 aggregator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aggregator.go b/aggregator.go
index 5db4c77..ee9e14f 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -1,6 +1,7 @@
 package health
 
 import (
+	"math"
 	"time"
 )
 
@@ -110,6 +111,10 @@ func (a *aggregator) EmitTiming(job string, event string, nanos int64) {
 }
 
 func (a *aggregator) EmitGauge(job string, event string, value float64) {
+	// JSON can't represent these; one of them would make all retained metrics unavailable.
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return
+	}
 	intAgg := a.getIntervalAggregation()
 	intAgg.Gauges[event] = value
 	jobAgg := intAgg.getJobAggregation(job)
-- 
2.43.0


From 47a384c472ee3995ecccaad59d6334185f215ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:56 +0000
Subject: [PATCH 04/22] fix: merging with an empty timer keeps the minimum and
 maximum right

A job that has events but no completion yet has a timer with count 0; merging it
with one that has completions took its zero values as a minimum and maximum.
---
 interval_aggregation_merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index eaa776e..2e63b11 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -27,6 +27,14 @@ func (intoJob *JobAggregation) merge(fromJob *JobAggregation) {
 }
 
 func (intoTa *TimerAggregation) merge(fromTa *TimerAggregation) {
+	// A timer that has ingested nothing has no minimum or maximum to contribute.
+	if fromTa.Count == 0 {
+		return
+	}
+	if intoTa.Count == 0 {
+		*intoTa = *fromTa
+		return
+	}
 	intoTa.Count += fromTa.Count
 	intoTa.NanosSum += fromTa.NanosSum
 	intoTa.NanosSumSquares += fromTa.NanosSumSquares
-- 
2.43.0


From af9af810f10565e8867a96d4416ff267963eb7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:20 +0000
Subject: [PATCH 05/22] fix: bugsnag reports carry the key/values of the time
 of the error

The sink kept the caller's map and read it later from another goroutine: a map
that was changed after the call gave a report with the wrong key/values, or a
fatal concurrent map iteration and map write.
---
 sinks/bugsnag/sink.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 16a2c9f..c6342cf 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -46,7 +46,12 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvs}
+			// The report is made later, and the maps passed in belong to the caller.
+			kvsCopy := make(map[string]string, len(kvs))
+			for k, v := range kvs {
+				kvsCopy[k] = v
+			}
+			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvsCopy}
 		}
 	case *health.MutedError:
 	// Do nothing!
-- 
2.43.0


From c8a4c8dcfa68aad3bb8df93f7ab443a4ce47047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:20 +0000
Subject: [PATCH 06/22] fix: bound requests to bugsnag and close their response
 bodies

Without a timeout, one request that was never answered stopped all further
reports, and blocked every emitting goroutine once the queue was full.
---
 sinks/bugsnag/api.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index f5d6539..d08c9cd 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -7,8 +7,13 @@ import (
 	"github.com/gocraft/health/stack"
 	"io/ioutil"
 	"net/http"
+	"time"
 )
 
+// notifyTimeout bounds one request to Bugsnag, so that a server that accepts requests and
+// doesn't answer can't hold up later errors, and with them the code that emits them, forever.
+const notifyTimeout = 30 * time.Second
+
 type Config struct {
 	// Your Bugsnag API key, e.g. "c9d60ae4c7e70c4b6c4ebd3e8056d2b8". You can
 	// find this by clicking Settings on https://bugsnag.com/.
@@ -107,11 +112,12 @@ func Notify(config *Config, jobName string, eventName string, err error, trace *
 	}
 
 	// Post it to the server:
-	client := http.Client{}
+	client := http.Client{Timeout: notifyTimeout}
 	resp, err := client.Post(config.Endpoint, "application/json", bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return err
-- 
2.43.0


From 582c1082862b51684a62a8643849873956ab7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 07/22] fix: every StatsD Drain and Stop call gets its own
 answer

---
 statsd_sink.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index a0b8868..c7fa51e 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -44,9 +44,7 @@ var defaultStatsDOptions = StatsDSinkOptions{SanitizationFunc: sanitizeKey}
 type StatsDSink struct {
 	options StatsDSinkOptions
 
-	cmdChan       chan statsdEmitCmd
-	drainDoneChan chan struct{}
-	stopDoneChan  chan struct{}
+	cmdChan chan statsdEmitCmd
 
 	flushPeriod time.Duration
 
@@ -82,6 +80,7 @@ type statsdEmitCmd struct {
 	Nanos  int64
 	Value  float64
 	Status CompletionStatus
+	Done   chan struct{} // Drain and Stop: closed when the command has been carried out
 }
 
 const cmdChanBuffSize = 8192 // random-ass-guess
@@ -102,8 +101,6 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 		udpConn:       c.(*net.UDPConn),
 		udpAddr:       ra,
 		cmdChan:       make(chan statsdEmitCmd, cmdChanBuffSize),
-		drainDoneChan: make(chan struct{}),
-		stopDoneChan:  make(chan struct{}),
 		flushPeriod:   100 * time.Millisecond,
 		prefixBuffers: make(map[eventKey]prefixBuffer),
 	}
@@ -123,13 +120,15 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 }
 
 func (s *StatsDSink) Stop() {
-	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindStop}
-	<-s.stopDoneChan
+	done := make(chan struct{})
+	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindStop, Done: done}
+	<-done
 }
 
 func (s *StatsDSink) Drain() {
-	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain}
-	<-s.drainDoneChan
+	done := make(chan struct{})
+	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain, Done: done}
+	<-done
 }
 
 func (s *StatsDSink) EmitEvent(job string, event string, kvs map[string]string) {
@@ -166,19 +165,34 @@ LOOP:
 	for cmd := range cmdChan {
 		switch cmd.Kind {
 		case statsdCmdKindDrain:
+			// Other Drain and Stop calls can be queued behind this one: answer them too.
+			dones, stopping := []chan struct{}{cmd.Done}, false
 		DRAIN_LOOP:
 			for {
 				select {
 				case cmd := <-cmdChan:
-					s.processCmd(&cmd)
+					switch cmd.Kind {
+					case statsdCmdKindDrain:
+						dones = append(dones, cmd.Done)
+					case statsdCmdKindStop:
+						dones = append(dones, cmd.Done)
+						stopping = true
+					default:
+						s.processCmd(&cmd)
+					}
 				default:
 					s.flush()
-					s.drainDoneChan <- struct{}{}
+					for _, done := range dones {
+						close(done)
+					}
+					if stopping {
+						break LOOP
+					}
 					break DRAIN_LOOP
 				}
 			}
 		case statsdCmdKindStop:
-			s.stopDoneChan <- struct{}{}
+			close(cmd.Done)
 			break LOOP
 		case statsdCmdKindFlush:
 			s.flush()
-- 
2.43.0


From b66e749fa766a52df8fa9724e913a987fc3ace31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:28 +0000
Subject: [PATCH 08/22] fix: a NaN or infinite value no longer costs a whole
 librato batch

---
 sinks/librato/sink.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index a015cd2..42a9fab 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 	"net/http"
 	"os"
 	"time"
@@ -237,6 +238,16 @@ func (s *Sink) inc(key string) {
 
 func (s *Sink) measure(key string, value float64) {
 	g, ok := s.timers[key]
+
+	// JSON has no NaN or infinity: such a value would cost us the whole batch.
+	sumSquares := value * value
+	if ok {
+		sumSquares += g.SumSquares
+	}
+	if math.IsNaN(sumSquares) || math.IsInf(sumSquares, 0) {
+		return
+	}
+
 	if !ok {
 		g = &gauge{Min: value, Max: value, Sum: value, Count: 1, SumSquares: value * value, Attributes: defaultTimerAttributes}
 		s.timers[key] = g
-- 
2.43.0


From 56180725368c5208477c9b8fe9d94407faea14da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:13 +0000
Subject: [PATCH 09/22] fix: bound requests to librato and close their response
 bodies

---
 sinks/librato/sink.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index 42a9fab..fc24e03 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
+	"io/ioutil"
 	"math"
 	"net/http"
 	"os"
@@ -65,6 +67,11 @@ type libratoMetricsPost struct {
 
 var defaultTimerAttributes gaugeAttributes = gaugeAttributes{true, "ms"}
 var defaultCounterAttributes gaugeAttributes = gaugeAttributes{true, "count"}
+
+// requestTimeout bounds one request to Librato, so that a server that accepts requests and
+// doesn't answer can't hold up later batches, and with them the code that emits, forever.
+const requestTimeout = 30 * time.Second
+
 var libratoRequestPath string = "https://metrics-api.librato.com/v1/metrics"
 
 type cmdKind int
@@ -96,7 +103,7 @@ func New(user, apiKey, prefix string) *Sink {
 		cmdChan:          make(chan *emitCmd, buffSize),
 		doneChan:         make(chan int),
 		doneDoneChan:     make(chan int),
-		httpClient:       &http.Client{},
+		httpClient:       &http.Client{Timeout: requestTimeout},
 		libratoUser:      user,
 		libratoApiKey:    apiKey,
 		prefix:           prefix,
@@ -314,10 +321,17 @@ func (s *Sink) send() error {
 	}
 	req.Header.Add("Content-Type", "application/json")
 	req.SetBasicAuth(s.libratoUser, s.libratoApiKey)
-	_, err = s.httpClient.Do(req)
+	resp, err := s.httpClient.Do(req)
+	if err != nil {
+		return err
+	}
+	defer resp.Body.Close()
 
 	//fmt.Println(resp.Status)
 
+	// Read the response to its end so that the connection can be used again.
+	_, err = io.Copy(ioutil.Discard, resp.Body)
+
 	return err
 }
 
-- 
2.43.0


From 12e2de0bbe6b672696f271a5114de6f75edefeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 10/22] fix: all sinks are told the same duration of a
 completed job

---
 health.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/health.go b/health.go
index 22ee16f..8d740fb 100644
--- a/health.go
+++ b/health.go
@@ -167,16 +167,19 @@ func (j *Job) GaugeKv(eventName string, value float64, kvs map[string]string) {
 }
 
 func (j *Job) Complete(status CompletionStatus) {
+	nanos := time.Since(j.Start).Nanoseconds() // once, see CompleteKv
 	allKvs := j.mergedKeyValues(nil)
 	for _, sink := range j.Stream.Sinks {
-		sink.EmitComplete(j.JobName, status, time.Since(j.Start).Nanoseconds(), allKvs)
+		sink.EmitComplete(j.JobName, status, nanos, allKvs)
 	}
 }
 
 func (j *Job) CompleteKv(status CompletionStatus, kvs map[string]string) {
+	// Taken once: what the sinks before it take isn't part of the duration a sink is told.
+	nanos := time.Since(j.Start).Nanoseconds()
 	allKvs := j.mergedKeyValues(kvs)
 	for _, sink := range j.Stream.Sinks {
-		sink.EmitComplete(j.JobName, status, time.Since(j.Start).Nanoseconds(), allKvs)
+		sink.EmitComplete(j.JobName, status, nanos, allKvs)
 	}
 }
 
-- 
2.43.0


From ea01d6348296d98fb7de11c862175657bbe2e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:22 +0000
Subject: [PATCH 11/22] fix: healthd identifies an interval by its instant, not
 by the zone a host reports it in

---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index b2013cb..5dd8293 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -245,6 +245,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			// The same instant is equal (==) as a map key only in the same location.
+			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
 				InstanceId: resp.InstanceId,
-- 
2.43.0


From 5bd3c98d1797fb3c9b272af92e31a5b021f50e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:41 +0000
Subject: [PATCH 12/22] fix: healthd's API writes JSON as it is, not as a
 format string

---
 healthd/api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 0334f22..5e95068 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -185,7 +185,7 @@ func renderJson(rw http.ResponseWriter, data interface{}) {
 		renderError(rw, err)
 		return
 	}
-	fmt.Fprintf(rw, string(jsonData))
+	rw.Write(jsonData)
 }
 
 func renderNotFound(rw http.ResponseWriter) {
@@ -195,7 +195,8 @@ func renderNotFound(rw http.ResponseWriter) {
 
 func renderError(rw http.ResponseWriter, err error) {
 	rw.WriteHeader(500)
-	fmt.Fprintf(rw, `{"error": "%s"}`, err.Error())
+	jsonData, _ := json.Marshal(map[string]string{"error": err.Error()})
+	rw.Write(jsonData)
 }
 
 func combineAggregations(aggregations []*health.IntervalAggregation) *health.IntervalAggregation {
-- 
2.43.0


From cf108a7a4992f2e343f52fce81ec7a3f9236bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:41 +0000
Subject: [PATCH 13/22] fix: the deviation of nearly equal durations is 0, not
 NaN, which JSON cannot hold

---
 healthd/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 5e95068..b585d8a 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -324,7 +324,8 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
 				div := float64(j.Count * (j.Count - 1))
-				stddev = math.Sqrt(num / div)
+				// Rounding can make num slightly negative when all durations are (nearly) the same.
+				stddev = math.Sqrt(math.Max(num, 0) / div)
 			}
 		}
 		job := &Job{
-- 
2.43.0


From 79aba85e4b057d9809f0d0a96fdd69e88ad6270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:41 +0000
Subject: [PATCH 14/22] fix: a host that answers a poll with JSON that is not
 its metrics does not crash healthd

---
 healthd/healthd.go |  5 ++++-
 healthd/poll.go    | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 5dd8293..d298bd6 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -237,8 +237,11 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
 		if hd.intervalDuration == 0 {
-			hd.intervalDuration = resp.IntervalDuration // TODO: validate this
+			hd.intervalDuration = resp.IntervalDuration
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
+			if hd.maxIntervals < 1 {
+				hd.maxIntervals = 1
+			}
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
 			return
diff --git a/healthd/poll.go b/healthd/poll.go
index 548a43f..ddd3879 100644
--- a/healthd/poll.go
+++ b/healthd/poll.go
@@ -2,6 +2,7 @@ package healthd
 
 import (
 	"encoding/json"
+	"fmt"
 	"github.com/gocraft/health"
 	"io/ioutil"
 	"net/http"
@@ -58,6 +59,13 @@ func poll(stream *health.Stream, hostPort string, responses chan<- *pollResponse
 		goto POLL_FINISH
 	}
 
+	if response.Code == 200 {
+		if err := validate(&response.HealthAggregationsResponse); err != nil {
+			response.Err = job.EventErr("poll.validate", err)
+			goto POLL_FINISH
+		}
+	}
+
 POLL_FINISH:
 
 	if response.Err != nil {
@@ -69,6 +77,19 @@ POLL_FINISH:
 	responses <- response
 }
 
+// validate returns an error if resp is JSON, but not what a polling sink serves.
+func validate(resp *health.HealthAggregationsResponse) error {
+	if resp.IntervalDuration <= 0 {
+		return fmt.Errorf("invalid interval duration: %d", resp.IntervalDuration)
+	}
+	for _, intAgg := range resp.IntervalAggregations {
+		if intAgg == nil {
+			return fmt.Errorf("invalid aggregation: null")
+		}
+	}
+	return nil
+}
+
 func metricsUrl(hostPort string) string {
 	return "http://" + hostPort + "/health"
 }
-- 
2.43.0


From 89425503486ef8cc7a00f477bbb724e0a6433b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 15/22] fix: API requests that race with stopping healthd are
 answered

---
 healthd/healthd.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index d298bd6..40e7f40 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -41,6 +41,9 @@ type HealthD struct {
 	stopAggregator     chan bool
 	stopStopAggregator chan bool
 	stopHTTP           func() bool
+
+	// aggregatorStopped is closed when nobody serves intervalsChanChan and hostsChanChan any more.
+	aggregatorStopped chan struct{}
 }
 
 type HostStatus struct {
@@ -76,6 +79,7 @@ func StartNewHealthD(monitoredHostPorts []string, serverHostPort string, stream
 	hd.maxIntervals = 0       // We don't know this yet. See above.
 	hd.stopAggregator = make(chan bool)
 	hd.stopStopAggregator = make(chan bool)
+	hd.aggregatorStopped = make(chan struct{})
 
 	for _, hp := range monitoredHostPorts {
 		hd.hostStatus[hp] = &HostStatus{
@@ -149,6 +153,7 @@ AGGREGATE_LOOP:
 		case hostsChan := <-hostsChanChan:
 			hostsChan <- hd.memorySafeHosts()
 		case <-hd.stopAggregator:
+			close(hd.aggregatorStopped)
 			hd.stopStopAggregator <- true
 			break AGGREGATE_LOOP
 		}
@@ -176,8 +181,17 @@ func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 		return nil
 	}
 	intervalsChan := make(chan []*health.IntervalAggregation)
-	hd.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case hd.intervalsChanChan <- intervalsChan:
+	case <-hd.aggregatorStopped:
+		return nil
+	}
+	select {
+	case intervals := <-intervalsChan:
+		return intervals
+	case <-hd.aggregatorStopped:
+		return nil
+	}
 }
 
 func (hd *HealthD) getHosts() []*HostStatus {
@@ -185,8 +199,17 @@ func (hd *HealthD) getHosts() []*HostStatus {
 		return nil
 	}
 	hostsChan := make(chan []*HostStatus)
-	hd.hostsChanChan <- hostsChan
-	return <-hostsChan
+	select {
+	case hd.hostsChanChan <- hostsChan:
+	case <-hd.aggregatorStopped:
+		return nil
+	}
+	select {
+	case hosts := <-hostsChan:
+		return hosts
+	case <-hd.aggregatorStopped:
+		return nil
+	}
 }
 
 func (agg *HealthD) memorySafeIntervals() []*health.IntervalAggregation {
-- 
2.43.0


From a1af671c0079b538bcfd0d747b686ad97ad9c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 16/22] fix: healthd and its debouncer do not wait for each
 other with more than 64 hosts

---
 healthd/healthd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 40e7f40..f16a5b1 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -144,7 +144,12 @@ AGGREGATE_LOOP:
 				hd.recalculateIntervals()
 			} else {
 				hd.consumePollResponse(resp)
-				recalcIntervalsRequest <- struct{}{}
+				// Must not block: the debouncer may be waiting for us to receive from recalcIntervals.
+				// If it's full, there are requests enough for the debouncer to see.
+				select {
+				case recalcIntervalsRequest <- struct{}{}:
+				default:
+				}
 			}
 		case <-recalcIntervals:
 			hd.recalculateIntervals()
-- 
2.43.0


From ff6974482146b5f8dee08821a0a625108186dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:10 +0000
Subject: [PATCH 17/22] fix: healthtop shows a healthd that hangs or answers
 with an error status as failing

---
 cmd/healthtop/hosts.go | 12 +-----------
 cmd/healthtop/jobs.go  | 12 +-----------
 cmd/healthtop/main.go  | 24 ++++++++++++++++++++++++
 3 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/cmd/healthtop/hosts.go b/cmd/healthtop/hosts.go
index 2fbcd43..2898d58 100644
--- a/cmd/healthtop/hosts.go
+++ b/cmd/healthtop/hosts.go
@@ -5,8 +5,6 @@ import (
 	"fmt"
 	"github.com/buger/goterm"
 	"github.com/gocraft/health/healthd"
-	"io/ioutil"
-	"net/http"
 	"strings"
 	"time"
 )
@@ -38,17 +36,9 @@ func hostsLoop() {
 }
 
 func pollHealthDHosts(responses chan *healthd.ApiResponseHosts, errors chan error) {
-	var body []byte
-
 	uri := "http://" + sourceHostPort + "/healthd/hosts"
 
-	resp, err := http.Get(uri)
-	if err != nil {
-		errors <- err
-		return
-	}
-	defer resp.Body.Close()
-	body, err = ioutil.ReadAll(resp.Body)
+	body, err := get(uri)
 	if err != nil {
 		errors <- err
 		return
diff --git a/cmd/healthtop/jobs.go b/cmd/healthtop/jobs.go
index 77bf16a..80f567f 100644
--- a/cmd/healthtop/jobs.go
+++ b/cmd/healthtop/jobs.go
@@ -5,8 +5,6 @@ import (
 	"fmt"
 	"github.com/buger/goterm"
 	"github.com/gocraft/health/healthd"
-	"io/ioutil"
-	"net/http"
 	"net/url"
 	"strings"
 	"time"
@@ -44,8 +42,6 @@ func jobsLoop(opts *jobOptions) {
 }
 
 func pollHealthDJobs(opts *jobOptions, responses chan *healthd.ApiResponseJobs, errors chan error) {
-	var body []byte
-
 	// limit. If name is not set, then limit it to the terminal height.
 	// if name IS set, then don't limit it b/c we will currently filter in-memory
 	var limit uint
@@ -67,13 +63,7 @@ func pollHealthDJobs(opts *jobOptions, responses chan *healthd.ApiResponseJobs,
 		uri = uri + "?" + params
 	}
 
-	resp, err := http.Get(uri)
-	if err != nil {
-		errors <- err
-		return
-	}
-	defer resp.Body.Close()
-	body, err = ioutil.ReadAll(resp.Body)
+	body, err := get(uri)
 	if err != nil {
 		errors <- err
 		return
diff --git a/cmd/healthtop/main.go b/cmd/healthtop/main.go
index 5aa7506..dc7b5f2 100644
--- a/cmd/healthtop/main.go
+++ b/cmd/healthtop/main.go
@@ -3,6 +3,8 @@ package main
 import (
 	"fmt"
 	"github.com/spf13/cobra"
+	"io/ioutil"
+	"net/http"
 	"time"
 )
 
@@ -34,6 +36,28 @@ func (s *healthdStatus) FmtStatus() string {
 
 var sourceHostPort string
 
+// A healthd that does not answer is an error, too.
+var client = &http.Client{
+	Timeout: 5 * time.Second,
+}
+
+// get returns the body of a successful response to a GET request
+func get(uri string) ([]byte, error) {
+	resp, err := client.Get(uri)
+	if err != nil {
+		return nil, err
+	}
+	defer resp.Body.Close()
+	body, err := ioutil.ReadAll(resp.Body)
+	if err != nil {
+		return nil, err
+	}
+	if resp.StatusCode != 200 {
+		return nil, fmt.Errorf("healthd responded with %s", resp.Status)
+	}
+	return body, nil
+}
+
 func main() {
 	var cmdRoot = &cobra.Command{
 		Use: "healthtop [command]",
-- 
2.43.0


From bbcb16f97945933b9232857efff34c43c3decad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 18/22] fix: healthd keeps what hosts reported of an interval
 when only some hosts still report it

When clocks differ a little, a host can still report an interval that healthd
has purged already: healthd then recalculated the interval from that host
alone, and lost what the others had reported.
---
 healthd/healthd.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index f16a5b1..958a63f 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -28,6 +28,9 @@ type HealthD struct {
 	// let's keep the last 5 minutes worth of data from each host
 	hostAggregations map[hostAggregationKey]*health.IntervalAggregation
 
+	// hostReports is what the latest successful response of each host (by HostPort) held.
+	hostReports map[string]map[hostAggregationKey]struct{}
+
 	// intervalsNeedingRecalculation is a set of intervals that need to be recalculated. It is cleared when they are recalculated.
 	intervalsNeedingRecalculation map[time.Time]struct{}
 
@@ -73,6 +76,7 @@ func StartNewHealthD(monitoredHostPorts []string, serverHostPort string, stream
 	hd.hostsChanChan = make(chan chan []*HostStatus, 16)
 	hd.hostStatus = make(map[string]*HostStatus)
 	hd.hostAggregations = make(map[hostAggregationKey]*health.IntervalAggregation)
+	hd.hostReports = make(map[string]map[hostAggregationKey]struct{})
 	hd.intervalsNeedingRecalculation = make(map[time.Time]struct{})
 	hd.retain = time.Hour * 2 // In the future this should be configurable
 	hd.intervalDuration = 0   // We don't know this yet. Will be configured from polled hosts.
@@ -275,6 +279,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 			return
 		}
 
+		reported := make(map[hostAggregationKey]struct{}, len(resp.IntervalAggregations))
+		hd.hostReports[resp.HostPort] = reported
+
 		for _, intAgg := range resp.IntervalAggregations {
 			// The same instant is equal (==) as a map key only in the same location.
 			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
@@ -284,6 +291,7 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 				InstanceId: resp.InstanceId,
 				HostPort:   resp.HostPort,
 			}
+			reported[key] = struct{}{}
 
 			existingIntAgg, ok := hd.hostAggregations[key]
 			if ok && existingIntAgg.SerialNumber == intAgg.SerialNumber {
@@ -296,11 +304,13 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	}
 }
 
-// purge purges old hostAggregations older than 5 intervals
+// purge purges old hostAggregations older than 5 intervals that their hosts don't report any more.
+// If we purged what a host still reports, its next response would have us recalculate the interval
+// from the hosts that still report it, and lose what the others had reported.
 func (agg *HealthD) purge() {
 	var threshold = agg.intervalDuration * 5 // NOTE: this is arbitrary.
 	for k, _ := range agg.hostAggregations {
-		if time.Since(k.Time) > threshold {
+		if _, reported := agg.hostReports[k.HostPort][k]; !reported && time.Since(k.Time) > threshold {
 			delete(agg.hostAggregations, k)
 		}
 	}
-- 
2.43.0


From 747fe26ee351a82290fb064502fae681a4717546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 19/22] fix: bugsnag: send the documented defaults of stage and
 host, and the version

---
 sinks/bugsnag/api.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index d08c9cd..71bf940 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -7,6 +7,7 @@ import (
 	"github.com/gocraft/health/stack"
 	"io/ioutil"
 	"net/http"
+	"os"
 	"time"
 )
 
@@ -63,7 +64,7 @@ type payloadEvent struct {
 	// user
 
 	App struct {
-		// version
+		Version      string `json:"version,omitempty"`
 		ReleaseStage string `json:"releaseStage"`
 	} `json:"app"`
 
@@ -149,8 +150,15 @@ func newPayload(config *Config, jobName string, eventName string, err error, tra
 		Exceptions:     []payloadException{except},
 		Context:        jobName,
 	}
+	evt.App.Version = config.AppVersion
 	evt.App.ReleaseStage = config.ReleaseStage
+	if evt.App.ReleaseStage == "" {
+		evt.App.ReleaseStage = "production"
+	}
 	evt.Device.Hostname = config.Hostname
+	if evt.Device.Hostname == "" {
+		evt.Device.Hostname, _ = os.Hostname()
+	}
 	evt.Metadata.Kvs = kvs
 
 	if requestUrl, requestUrlExists := kvs["request"]; requestUrlExists {
-- 
2.43.0


From e8f27450eb963e416a377e9b72514019448e82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 20/22] fix: healthd took the data of a restarted host for what
 it already had, if InstanceId and serial number were the same

---
 healthd/healthd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 958a63f..fd387c6 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -3,6 +3,7 @@ package healthd
 import (
 	"fmt"
 	"github.com/gocraft/health"
+	"reflect"
 	"sort"
 	"sync"
 	"sync/atomic"
@@ -294,8 +295,10 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 			reported[key] = struct{}{}
 
 			existingIntAgg, ok := hd.hostAggregations[key]
-			if ok && existingIntAgg.SerialNumber == intAgg.SerialNumber {
+			if ok && reflect.DeepEqual(existingIntAgg, intAgg) {
 				// ignore; we already have this data
+				// (The serial number doesn't tell: a restarted process, in a container say, can have
+				// the same InstanceId, and be at the same serial number, as the one before it.)
 			} else {
 				hd.hostAggregations[key] = intAgg
 				hd.intervalsNeedingRecalculation[intAgg.IntervalStart] = struct{}{}
-- 
2.43.0


From b873ba34db1dfe49fa0432fc699dedf2a60ead6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:39 +0000
Subject: [PATCH 21/22] fix: complete a job whose function ends its goroutine

A job function that called runtime.Goexit (FailNow of a test, say) left its
job without any completion.
---
 health.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/health.go b/health.go
index 8d740fb..bceb414 100644
--- a/health.go
+++ b/health.go
@@ -224,6 +224,7 @@ func (s *Stream) Run(jobName string, f func() error) error {
 }
 
 func (j *Job) Run(f func() error) (err error) {
+	finished := false
 	defer func() {
 		if r := recover(); r != nil {
 			stack := make([]byte, 4096)
@@ -234,10 +235,14 @@ func (j *Job) Run(f func() error) (err error) {
 			err = errors.New(fmt.Sprint(r))
 			j.EventErrKv("panic", err, Kvs{"stack": string(stack)})
 			j.Complete(Panic)
+		} else if !finished {
+			// f ended its goroutine (runtime.Goexit): Run won't return, but the job did end.
+			j.Complete(Error)
 		}
 	}()
 
 	err = f()
+	finished = true
 	if err != nil {
 		j.Complete(Error)
 	} else {
-- 
2.43.0


From b3c172fcc99accc77f4b01ecad7a5a8ca661edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:39 +0000
Subject: [PATCH 22/22] fix: emitting or muting no error at all crashed the
 process

EventErr(name, nil) and Mute(nil) made an error without an error in it,
whose text every sink asks for: writers panicked in the emitter, the polling
sink and Bugsnag in their own goroutines, where nobody can recover.
---
 error.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 712e172..0dbdbb2 100644
--- a/error.go
+++ b/error.go
@@ -15,11 +15,19 @@ type UnmutedError struct {
 }
 
 func (e *MutedError) Error() string {
-	return e.Err.Error()
+	return errorText(e.Err)
 }
 
 func (e *UnmutedError) Error() string {
-	return e.Err.Error()
+	return errorText(e.Err)
+}
+
+// errorText is err.Error(), also for an EventErr or a Mute of no error at all.
+func errorText(err error) string {
+	if err == nil {
+		return "<nil>"
+	}
+	return err.Error()
 }
 
 func Mute(err error) *MutedError {
-- 
2.43.0

