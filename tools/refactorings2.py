import re, sys
R=sys.argv[1].rstrip('/')+'/' # a scratch copy of /repo
def sub(f,*prs):
    t=open(R+f).read()
    for a,b in prs:
        assert t.count(a)==1,(f,t.count(a),a)
        t=t.replace(a,b)
    open(R+f,'w').write(t)
sub('health.go',('''	err = f()
	if err != nil {
		j.Complete(Error)
	} else {
		j.Complete(Success)
	}

	return
}
''','''	if err = f(); err == nil {
		j.Complete(Success)
		return nil
	}
	j.Complete(Error)
	return err
}
'''),('''	defer func() {
		if r := recover(); r != nil {
			stack := make([]byte, 4096)
			stack = stack[:runtime.Stack(stack, false)]

			// recovered value from panic() is an interface{}, and it might not be `error`
			// do not simply type-assert here
			err = errors.New(fmt.Sprint(r))
			j.EventErrKv("panic", err, Kvs{"stack": string(stack)})
			j.Complete(Panic)
		}
	}()
''','''	defer func() {
		r := recover()
		if r == nil {
			return
		}
		err = j.reportPanic(r)
	}()
'''),('''func (s *Stream) Run(jobName''','''func (j *Job) reportPanic(r interface{}) error {
	stack := currentStack()
	// recovered value from panic() is an interface{}, and it might not be `error`
	err := errors.New(fmt.Sprint(r))
	j.EventErrKv("panic", err, map[string]string{"stack": stack})
	j.Complete(Panic)
	return err
}

func currentStack() string {
	buf := make([]byte, 4096)
	n := runtime.Stack(buf, false)
	return string(buf[:n])
}

func (s *Stream) Run(jobName'''),('''	var kvCount = 0
	if len(j.KeyValues) > 0 {
		kvCount += 1
		allKvs = j.KeyValues
	}
	if len(j.Stream.KeyValues) > 0 {
		kvCount += 1
		allKvs = j.Stream.KeyValues
	}
	if len(instanceKvs) > 0 {
		kvCount += 1
		allKvs = instanceKvs
	}

	if kvCount > 1 {
		allKvs = make(map[string]string)
		for k, v := range j.Stream.KeyValues {
			allKvs[k] = v
		}
		for k, v := range j.KeyValues {
			allKvs[k] = v
		}
		for k, v := range instanceKvs {
			allKvs[k] = v
		}
	}
''','''	sources := [...]map[string]string{j.Stream.KeyValues, j.KeyValues, instanceKvs}
	kvCount, size := 0, 0
	for _, src := range sources {
		if n := len(src); n > 0 {
			kvCount++
			size += n
			allKvs = src
		}
	}

	if kvCount > 1 {
		allKvs = make(map[string]string, size)
		for _, src := range sources {
			for k, v := range src {
				allKvs[k] = v
			}
		}
	}
'''),('''func (cs CompletionStatus) String() string {
	return completionStatusToString[cs]
''','''func (cs CompletionStatus) String() string {
	s, ok := completionStatusToString[cs]
	if !ok {
		return ""
	}
	return s
'''))
sub('error.go',('''	switch err := err.(type) {
	case *MutedError, *UnmutedError:
		return err
	default:
		return &UnmutedError{Err: err, Stack: stack.NewTrace(2)}
	}
''','''	if _, muted := err.(*MutedError); muted {
		return err
	}
	if _, unmuted := err.(*UnmutedError); unmuted {
		return err
	}
	trace := stack.NewTrace(2)
	return &UnmutedError{Stack: trace, Err: err}
'''))
sub('aggregator.go',('''			agg.getIntervalAggregation() // this has''','''			_ = agg.getIntervalAggregation() // this has'''),
('''	intAgg.Events[event] = intAgg.Events[event] + 1
	jobAgg := intAgg.getJobAggregation(job)
	jobAgg.Events[event] = jobAgg.Events[event] + 1
	intAgg.SerialNumber++
''','''	intAgg.SerialNumber++
	intAgg.Events[event]++
	intAgg.getJobAggregation(job).Events[event]++
'''),('''	for _, intAgg := range a.intervalAggregations {
		if intAgg == curAgg {
			ret = append(ret, intAgg.Clone())
		} else {
			ret = append(ret, intAgg)
		}
	}

	return ret
''','''	for _, intAgg := range a.intervalAggregations {
		if intAgg == curAgg {
			intAgg = intAgg.Clone()
		}
		ret = append(ret, intAgg)
	}
	return ret
'''),('''	n := len(a.intervalAggregations)
	if n > 0 && a.intervalAggregations[n-1].IntervalStart == intervalStart {
		return a.intervalAggregations[n-1]
	}

	return a.createIntervalAggregation(intervalStart)
''','''	if n := len(a.intervalAggregations); n > 0 {
		if last := a.intervalAggregations[n-1]; last.IntervalStart.Equal(intervalStart) {
			return last
		}
	}
	return a.createIntervalAggregation(intervalStart)
'''),('''	n := len(a.intervalAggregations)
	if n == a.maxIntervals {
		for i := 1; i < n; i++ {
			a.intervalAggregations[i-1] = a.intervalAggregations[i]
		}
		a.intervalAggregations[n-1] = current
	} else {
		a.intervalAggregations = append(a.intervalAggregations, current)
	}
''','''	if len(a.intervalAggregations) < a.maxIntervals {
		a.intervalAggregations = append(a.intervalAggregations, current)
		return current
	}
	copy(a.intervalAggregations, a.intervalAggregations[1:])
	a.intervalAggregations[len(a.intervalAggregations)-1] = current
'''),('''	maxIntervals := int(retain / intervalDuration)
	if maxIntervals < 1 {
		// We always hold at least the current interval.
		maxIntervals = 1
	}
''','''	maxIntervals := max(1, int(retain/intervalDuration)) // We always hold at least the current interval.
'''))
sub('interval_aggregation.go',('''	a.Count++
	a.NanosSum += nanos
	floatNano := float64(nanos)
	a.NanosSumSquares += (floatNano * floatNano)
	if a.Count == 1 || nanos < a.NanosMin {
		a.NanosMin = nanos
	}
	if a.Count == 1 || nanos > a.NanosMax {
		a.NanosMax = nanos
	}
''','''	if a.Count == 0 {
		a.NanosMin, a.NanosMax = nanos, nanos
	} else {
		a.NanosMin = min(a.NanosMin, nanos)
		a.NanosMax = max(a.NanosMax, nanos)
	}
	f := float64(nanos)
	a.NanosSumSquares += f * f
	a.NanosSum += nanos
	a.Count++
'''),('''	// Count how many non-nil errors are there so we can make a slice of the right size
	count := 0
	for _, e := range ec.errorSamples {
		if e != nil {
			count++
		}
	}
	ret := make([]error, 0, count)
''','''	ret := make([]error, 0, len(ec.errorSamples))
'''),('''	lastErr := ec.errorSamples[ec.errorSampleIndex]
	if lastErr == nil {
		ec.errorSamples[ec.errorSampleIndex] = inputErr
	} else if !sameError(lastErr, inputErr) {
		n := len(ec.errorSamples)
		ec.errorSampleIndex = (ec.errorSampleIndex + 1) % n
		ec.errorSamples[ec.errorSampleIndex] = inputErr
	}
''','''	if last := ec.errorSamples[ec.errorSampleIndex]; last != nil {
		if sameError(last, inputErr) {
			return
		}
		ec.errorSampleIndex++
		if ec.errorSampleIndex == len(ec.errorSamples) {
			ec.errorSampleIndex = 0
		}
	}
	ec.errorSamples[ec.errorSampleIndex] = inputErr
'''),('''	jobAgg := ia.Jobs[job]
	if jobAgg == nil {
		jobAgg = &JobAggregation{}
		jobAgg.initAggregationMaps()
		ia.Jobs[job] = jobAgg
	}
	return jobAgg
''','''	if jobAgg, ok := ia.Jobs[job]; ok && jobAgg != nil {
		return jobAgg
	}
	jobAgg := new(JobAggregation)
	jobAgg.initAggregationMaps()
	ia.Jobs[job] = jobAgg
	return jobAgg
'''))
sub('interval_aggregation_clone.go',('''	dup := &JobAggregation{
		CountSuccess:         ja.CountSuccess,
		CountValidationError: ja.CountValidationError,
		CountPanic:           ja.CountPanic,
		CountError:           ja.CountError,
		CountJunk:            ja.CountJunk,
	}

	dup.aggregationMaps = *ja.aggregationMaps.Clone()
	dup.TimerAggregation = ja.TimerAggregation

	return dup
''','''	dup := *ja
	dup.aggregationMaps = *ja.aggregationMaps.Clone()
	return &dup
'''))
sub('interval_aggregation_merge.go',('''			for _, err := range v.errorSamples {
				if err != nil {
					existingErrCounter.addError(err)
				}
			}
''','''			for _, err := range v.getErrorSamples() {
				existingErrCounter.addError(err)
			}
'''),('''		if existingJob, ok := ia.Jobs[k]; ok {
			existingJob.merge(v)
		} else {
			ia.Jobs[k] = v.Clone()
		}
''','''		existingJob, ok := ia.Jobs[k]
		if !ok {
			ia.Jobs[k] = v.Clone()
			continue
		}
		existingJob.merge(v)
'''),('''	if fromTa.Count != 0 {
		if intoTa.Count == 0 || fromTa.NanosMin < intoTa.NanosMin {
			intoTa.NanosMin = fromTa.NanosMin
		}
		if intoTa.Count == 0 || fromTa.NanosMax > intoTa.NanosMax {
			intoTa.NanosMax = fromTa.NanosMax
		}
	}
''','''	switch {
	case fromTa.Count == 0:
	case intoTa.Count == 0:
		intoTa.NanosMin, intoTa.NanosMax = fromTa.NanosMin, fromTa.NanosMax
	default:
		intoTa.NanosMin = min(intoTa.NanosMin, fromTa.NanosMin)
		intoTa.NanosMax = max(intoTa.NanosMax, fromTa.NanosMax)
	}
'''))
sub('json_polling_sink_http.go',('''		jsonData, err := json.MarshalIndent(response, "", "\\t")
		if err != nil {
			renderError(rw, err)
			return
		}
		rw.Write(jsonData)
	} else {
		renderNotFound(rw)
	}
''','''		renderJson(rw, response)
		return
	}
	renderNotFound(rw)
'''),('''func renderNotFound(''','''func renderJson(rw http.ResponseWriter, data interface{}) {
	if jsonData, err := json.MarshalIndent(data, "", "\\t"); err == nil {
		rw.Write(jsonData)
	} else {
		renderError(rw, err)
	}
}

func renderNotFound('''))
sub('json_polling_sink.go',('''	intervalsChan := make(chan []*IntervalAggregation)
''','''	intervalsChan := make(chan []*IntervalAggregation, 1)
'''))
t=open(R+'writer_sink.go').read()
t=t.replace('''	var b bytes.Buffer
	b.WriteRune('[')
	b.WriteString(timestamp())
	b.WriteString("]: job:")
	b.WriteString(job)
''','''	b := newLine(job)
''').replace('''	writeMapConsistently(&b, kvs)
	b.WriteRune('\\n')
	s.Writer.Write(b.Bytes())
''','''	s.finish(b, kvs)
''').replace('(&b, ','(b, ')
t+='''
func newLine(job string) *bytes.Buffer {
	return bytes.NewBufferString("[" + timestamp() + "]: job:" + job)
}

func (s *WriterSink) finish(b *bytes.Buffer, kvs map[string]string) {
	writeMapConsistently(b, kvs)
	b.WriteByte('\\n')
	s.Writer.Write(b.Bytes())
}
'''
open(R+'writer_sink.go','w').write(t)
t=open(R+'json_writer_sink.go').read()
t=re.sub(r'''	b, err := json.Marshal\((struct \{.*?\}\{.*?\})\)

	if err != nil \{
		return
	\}
	j.Write\(b\)
''',r'''	j.write(\1)
''',t,flags=re.S)
t+='''
func (j *JsonWriterSink) write(v interface{}) {
	if b, err := json.Marshal(v); err == nil {
		_, _ = j.Write(b)
	}
}
'''
open(R+'json_writer_sink.go','w').write(t)
t=open(R+'statsd_sink.go').read()
t=re.sub(r'''	if !s.options.SkipTopLevelEvents \{
		pb := s.getPrefixBuffer\("", event, (.*?)\)
		pb.WriteString\("1\|c\\n"\)
		s.writeStatsDMetric\(pb.Bytes\(\)\)
	\}

	if !s.options.SkipNestedEvents \{
		pb := s.getPrefixBuffer\(job, event, .*?\)
		pb.WriteString\("1\|c\\n"\)
		s.writeStatsDMetric\(pb.Bytes\(\)\)
	\}
''',r'''	s.writeMetrics(job, event, \1, []byte("1"), "|c\\n")
''',t)
t=re.sub(r'''	if !s.options.SkipTopLevelEvents \{
		pb := s.getPrefixBuffer\("", event, ""\)
		pb.Write\(s.timingBuf\)
		pb.WriteString\((.*?)\)
		s.writeStatsDMetric\(pb.Bytes\(\)\)
	\}

	if !s.options.SkipNestedEvents \{
		pb := s.getPrefixBuffer\(job, event, ""\)
		pb.Write\(s.timingBuf\)
		pb.WriteString\(.*?\)
		s.writeStatsDMetric\(pb.Bytes\(\)\)
	\}
''',r'''	s.writeMetrics(job, event, "", s.timingBuf, \1)
''',t)
t=t.replace('''	if (lenb + lenUdpBuf) > maxUdpBytes {
		s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
		s.udpBuf.Truncate(0)
	}
''','''	if (lenb + lenUdpBuf) > maxUdpBytes {
		s.flush()
	}
''').replace('''	if s.udpBuf.Len() > 0 {
		s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
		s.udpBuf.Truncate(0)
	}
''','''	if s.udpBuf.Len() == 0 {
		return
	}
	s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
	s.udpBuf.Reset()
''').replace('''	go func() {
		for _ = range ticker.C {
			cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
		}
	}()
''','''	go s.requestFlushes(ticker)
''')
t+='''
func (s *StatsDSink) requestFlushes(ticker *time.Ticker) {
	for {
		<-ticker.C
		s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
	}
}

func (s *StatsDSink) writeMetrics(job, event, suffix string, value []byte, unit string) {
	write := func(job string) {
		pb := s.getPrefixBuffer(job, event, suffix)
		pb.Write(value)
		pb.WriteString(unit)
		s.writeStatsDMetric(pb.Bytes())
	}
	if !s.options.SkipTopLevelEvents {
		write("")
	}
	if !s.options.SkipNestedEvents {
		write(job)
	}
}
'''
open(R+'statsd_sink.go','w').write(t)
# librato
sub('sinks/librato/sink.go',('''	var b bytes.Buffer

	if s.prefix != "" {
		b.WriteString(s.prefix)
		b.WriteRune('.')
	}
	b.WriteString(s.SanitizationFunc(job))
	b.WriteRune('.')
	b.WriteString(status.String())
	b.WriteString(".timing")

	ms := float64(nanos) / float64(time.Millisecond)
	s.measure(b.String(), ms)
''','''	key := s.join(s.SanitizationFunc(job), status.String(), "timing")
	s.measure(key, millis(nanos))
'''),('''	var key1 bytes.Buffer // event
	var key2 bytes.Buffer // job.event

	if s.prefix != "" {
		key1.WriteString(s.prefix)
		key1.WriteRune('.')
		key2.WriteString(s.prefix)
		key2.WriteRune('.')
	}

	key1.WriteString(s.SanitizationFunc(event))
	key2.WriteString(s.SanitizationFunc(job))
	key2.WriteRune('.')
	key2.WriteString(s.SanitizationFunc(event))

	if suffix != "" {
		key1.WriteRune('.')
		key1.WriteString(suffix)
		key2.WriteRune('.')
		key2.WriteString(suffix)
	}

	return key1.String(), key2.String()
}
''','''	job, event = s.SanitizationFunc(job), s.SanitizationFunc(event)
	return s.join(event, suffix), s.join(job, event, suffix)
}

func (s *Sink) join(parts ...string) string {
	key := strings.Join(parts, ".")
	if s.prefix == "" {
		return key
	}
	return s.prefix + "." + key
}

func millis(nanos int64) float64 {
	return float64(nanos) / float64(time.Millisecond)
}
'''),('''	key1, key2 := s.eventKeys(job, event, "timing")
	ms := float64(nanos) / float64(time.Millisecond)
	s.measure(key1, ms)
	s.measure(key2, ms)
''','''	ms := millis(nanos)
	key1, key2 := s.eventKeys(job, event, "timing")
	s.measure(key2, ms)
	s.measure(key1, ms)
'''),('''	for _, r := range k {
		if shouldSanitize(r) {
			goto SANITIZE
		}
	}
	return k
SANITIZE:
	var key bytes.Buffer
	for _, r := range k {
		if shouldSanitize(r) {
			key.WriteRune('_')
		} else {
			key.WriteRune(r)
		}
	}
	return key.String()
''','''	return strings.Map(func(r rune) rune {
		if shouldSanitize(r) {
			return '_'
		}
		return r
	}, k)
'''),('''	"os"
''','''	"os"
	"strings"
'''),('''	s.timers = make(map[string]*gauge)
	s.counters = make(map[string]int64)
}

func (s *Sink) send''','''	clear(s.timers)
	clear(s.counters)
}

func (s *Sink) send'''),('''	g, ok := s.timers[key]
	if !ok {
		g = &gauge{Min: value, Max: value, Sum: value, Count: 1, SumSquares: value * value, Attributes: defaultTimerAttributes}
		s.timers[key] = g
	} else {
		g.Count++
		g.Sum += value
		g.SumSquares += value * value

		if value < g.Min {
			g.Min = value
		}
		if value > g.Max {
			g.Max = value
		}
	}
''','''	g := s.timers[key]
	if g == nil {
		g = &gauge{Min: value, Max: value, Attributes: defaultTimerAttributes}
		s.timers[key] = g
	}
	g.Count++
	g.Sum += value
	g.SumSquares += value * value
	if value < g.Min {
		g.Min = value
	} else if value > g.Max {
		g.Max = value
	}
'''),('''	req.Header.Add("Content-Type", "application/json")
''','''	req.Header.Set("Content-Type", "application/json")
'''),('''		bytes.NewBuffer(b),
''','''		bytes.NewReader(b),
'''),('''	gauges := make(map[string]interface{})
''','''	gauges := make(map[string]interface{}, len(s.timers)+len(s.counters))
'''))
sub('sinks/bugsnag/sink.go',('''	switch inputErr := inputErr.(type) {
	case *health.UnmutedError:
		if !inputErr.Emitted {
			select {
			case s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: copyKvs(kvs)}:
			case <-s.doneDoneChan:
				// Nobody sends errors after ShutdownServer.
			}
		}
	case *health.MutedError:
	// Do nothing!
	default: // eg, case error:
		// This shouldn't happen, all errors passed in here should be wrapped.
	}
''','''	unmuted, ok := inputErr.(*health.UnmutedError)
	if !ok || unmuted.Emitted {
		return
	}
	cmd := &cmdEventErr{Job: job, Event: event, Err: unmuted, Kvs: copyKvs(kvs)}
	select {
	case <-s.doneDoneChan:
		// Nobody sends errors after ShutdownServer.
	case s.cmdChan <- cmd:
	}
'''),('''			if err := Notify(sink.Config, cmd.Job, cmd.Event, cmd.Err, cmd.Err.Stack, cmd.Kvs); err != nil {
				fmt.Fprintf(os.Stderr, "bugsnag.Notify: could not notify bugsnag. err=%v\\n", err)
			}
''','''			sink.notify(cmd)
'''),('''func errorProcessingLoop(''','''func (s *Sink) notify(cmd *cmdEventErr) {
	err := Notify(s.Config, cmd.Job, cmd.Event, cmd.Err, cmd.Err.Stack, cmd.Kvs)
	if err == nil {
		return
	}
	fmt.Fprintf(os.Stderr, "bugsnag.Notify: could not notify bugsnag. err=%v\\n", err)
}

func errorProcessingLoop('''))
sub('sinks/bugsnag/api.go',('''	for _, frame := range trace.Frames() {
		pf := payloadFrame{
			File:       frame.File,
			LineNumber: frame.LineNumber,
			Method:     frame.Package + ":" + frame.Name,
			InProject:  !frame.IsSystemPackage,
		}
		except.Stacktrace = append(except.Stacktrace, pf)
	}
''','''	except.Stacktrace = payloadFrames(trace.Frames())
'''),('''func newPayload(''','''func payloadFrames(frames []stack.Frame) []payloadFrame {
	ret := make([]payloadFrame, len(frames))
	for i := range frames {
		frame := &frames[i]
		ret[i].File = frame.File
		ret[i].LineNumber = frame.LineNumber
		ret[i].Method = fmt.Sprintf("%s:%s", frame.Package, frame.Name)
		ret[i].InProject = !frame.IsSystemPackage
	}
	return ret
}

func newPayload('''),('''	if requestUrl, requestUrlExists := kvs["request"]; requestUrlExists {
		evt.Metadata.Request.Url = requestUrl
	}

	if formData, formDataExists := kvs["formdata"]; formDataExists {
		evt.Metadata.Request.Parameters = formData
	}
''','''	evt.Metadata.Request = request{Url: kvs["request"], Parameters: kvs["formdata"]}
'''),('''	client := http.Client{}
	resp, err := client.Post(config.Endpoint, "application/json", bytes.NewBuffer(data))
''','''	resp, err := http.Post(config.Endpoint, "application/json", bytes.NewReader(data))
'''))
sub('stack/stack.go',('''	frames := make([]Frame, len(t.stack))

	for i, pc := range t.stack {
		frames[i] = NewFrame(pc)
	}

	return frames
''','''	frames := make([]Frame, 0, len(t.stack))
	for _, pc := range t.stack {
		frames = append(frames, NewFrame(pc))
	}
	return frames
'''),('''	buf := bytes.Buffer{}

	for _, frame := range t.Frames() {
		buf.WriteString(frame.String())
		buf.WriteRune('\\n')
	}

	return buf.Bytes()
''','''	var out []byte
	for _, frame := range t.Frames() {
		out = append(out, frame.String()...)
		out = append(out, '\\n')
	}
	return out
'''),('	"bytes"\n',''))
sub('stack/frame.go',('''	if lastslash := strings.LastIndex(name, "/"); lastslash >= 0 {
		pkg += name[:lastslash] + "/"
		name = name[lastslash+1:]
	}
	if period := strings.Index(name, "."); period >= 0 {
		pkg += name[:period]
		name = name[period+1:]
	}

	return pkg, name
''','''	start := strings.LastIndexByte(name, '/') + 1
	pkg = name[:start]
	if before, after, found := strings.Cut(name[start:], "."); found {
		return pkg + before, after
	}
	return pkg, name[start:]
'''))
sub('runtime_metrics/runtime_metrics.go',('''METRICS_POOLER_LOOP:
	for {
		select {
		case <-rm.stopChan:
			break METRICS_POOLER_LOOP
		case <-ticker.C:
			rm.Report()
		}
	}

	ticker.Stop()
	rm.stopStopChan <- true
''','''	defer func() {
		ticker.Stop()
		rm.stopStopChan <- true
	}()

	for {
		select {
		case <-rm.stopChan:
			return
		case <-ticker.C:
			rm.Report()
		}
	}
'''),('''		rm.reportGauge("gc_pause_quantile_50", float64(gc.PauseQuantiles[1]/1000)/1000.0)
		rm.reportGauge("gc_pause_quantile_max", float64(gc.PauseQuantiles[2]/1000)/1000.0)
''','''		for i, name := range []string{"gc_pause_quantile_50", "gc_pause_quantile_max"} {
			micros := gc.PauseQuantiles[i+1] / time.Microsecond
			rm.reportGauge(name, float64(micros)/1000)
		}
'''))
# healthd
sub('healthd/healthd.go',('''	for k, _ := range hd.intervalsNeedingRecalculation {
		intAggsAtTime := []*health.IntervalAggregation{}

		for key, intAgg := range hd.hostAggregations {
			if key.Time == k {
				intAggsAtTime = append(intAggsAtTime, intAgg)
			}
		}

		overallAgg := health.NewIntervalAggregation(k)
		for _, ia := range intAggsAtTime {
			overallAgg.Merge(ia)
		}
		hd.setAggregation(overallAgg)
	}

	// Reset everything:
	hd.intervalsNeedingRecalculation = make(map[time.Time]struct{})
''','''	for k := range hd.intervalsNeedingRecalculation {
		hd.setAggregation(hd.mergeHosts(k))
		delete(hd.intervalsNeedingRecalculation, k)
	}
'''),('''type ByInterval ''','''// mergeHosts merges what the hosts reported for an interval.
func (hd *HealthD) mergeHosts(start time.Time) *health.IntervalAggregation {
	overall := health.NewIntervalAggregation(start)
	for key, intAgg := range hd.hostAggregations {
		if key.Time != start {
			continue
		}
		overall.Merge(intAgg)
	}
	return overall
}

type ByInterval '''),('''	// Otherwise, just append it and sort to get ordering right.
	agg.intervalAggregations = append(agg.intervalAggregations, intAgg)
	sort.Sort(ByInterval(agg.intervalAggregations))

	// If we have too many aggregations, truncate
	n := len(agg.intervalAggregations)
	if n > agg.maxIntervals {
		agg.intervalAggregations = agg.intervalAggregations[(n - agg.maxIntervals):]
	}
''','''	// Otherwise, insert it where it belongs.
	i := sort.Search(len(agg.intervalAggregations), func(i int) bool {
		return agg.intervalAggregations[i].IntervalStart.After(intAgg.IntervalStart)
	})
	agg.intervalAggregations = append(agg.intervalAggregations, nil)
	copy(agg.intervalAggregations[i+1:], agg.intervalAggregations[i:])
	agg.intervalAggregations[i] = intAgg

	agg.truncate()
'''),('''	n := len(agg.intervalAggregations)
	if n > agg.maxIntervals {
		agg.intervalAggregations = agg.intervalAggregations[(n - agg.maxIntervals):]
	}
}

func (hd *HealthD) recalculateIntervals''','''	agg.truncate()
}

// truncate drops the oldest aggregations if there are too many.
func (agg *HealthD) truncate() {
	for len(agg.intervalAggregations) > agg.maxIntervals {
		agg.intervalAggregations = agg.intervalAggregations[1:]
	}
}

func (hd *HealthD) recalculateIntervals'''),('''	for _, hs := range hd.hostStatus {
		wg.Add(1)
		go func(hs *HostStatus) {
			defer wg.Done()
			poll(hd.stream, hs.HostPort, responses)
		}(hs)
	}
	wg.Wait()
''','''	wg.Add(len(hd.hostStatus))
	for hp := range hd.hostStatus {
		go func() {
			poll(hd.stream, hp, responses)
			wg.Done()
		}()
	}
	wg.Wait()
'''),('''		hs.LastCheckTime = resp.Timestamp
		hs.LastNanos = resp.Nanos
		hs.LastInstanceId = resp.InstanceId
		hs.LastIntervalDuration = resp.IntervalDuration
		hs.LastCode = resp.Code
		if resp.Err == nil {
			hs.LastErr = ""
		} else {
			hs.LastErr = resp.Err.Error()
		}

		if resp.Code == 200 && resp.Err == nil {
			if hs.FirstSuccessfulResponse.IsZero() {
				hs.FirstSuccessfulResponse = now()
			}
			hs.LastSuccessfulResponse = now()
		}
	} else {
''','''		hs.update(resp)
	} else {
'''),('''// dropNulls removes''','''// update takes over what a poll told.
func (hs *HostStatus) update(resp *pollResponse) {
	hs.LastCode, hs.LastNanos = resp.Code, resp.Nanos
	hs.LastCheckTime = resp.Timestamp
	hs.LastInstanceId = resp.InstanceId
	hs.LastIntervalDuration = resp.IntervalDuration
	hs.LastErr = ""
	if resp.Err != nil {
		hs.LastErr = resp.Err.Error()
		return
	}
	if resp.Code != 200 {
		return
	}
	hs.LastSuccessfulResponse = now()
	if hs.FirstSuccessfulResponse.IsZero() {
		hs.FirstSuccessfulResponse = hs.LastSuccessfulResponse
	}
}

// dropNulls removes'''),('''			existingIntAgg, ok := hd.hostAggregations[key]
			if ok && existingIntAgg.SerialNumber == intAgg.SerialNumber {
				// ignore; we already have this data
			} else {
				hd.hostAggregations[key] = intAgg
				hd.intervalsNeedingRecalculation[intAgg.IntervalStart] = struct{}{}
			}
''','''			if known, ok := hd.hostAggregations[key]; ok && known.SerialNumber == intAgg.SerialNumber {
				continue // we already have this data
			}
			hd.intervalsNeedingRecalculation[intAgg.IntervalStart] = struct{}{}
			hd.hostAggregations[key] = intAgg
'''),('''	for _, hs := range hd.hostStatus {
		var host = *hs // copy mem
		ret = append(ret, &host)
	}
''','''	for _, hs := range hd.hostStatus {
		host := new(HostStatus)
		*host = *hs
		ret = append(ret, host)
	}
'''),('''	var threshold = agg.intervalDuration * 5 // NOTE: this is arbitrary.
	for k, _ := range agg.hostAggregations {
		if time.Since(k.Time) > threshold {
			delete(agg.hostAggregations, k)
		}
	}
''','''	oldest := time.Now().Add(-5 * agg.intervalDuration) // NOTE: this is arbitrary.
	for k := range agg.hostAggregations {
		if k.Time.Before(oldest) {
			delete(agg.hostAggregations, k)
		}
	}
'''))
sub('healthd/api.go',('''		var avg, stddev float64
		if j.Count == 0 {
			avg = 0
			stddev = 0
		} else {
			avg = float64(j.NanosSum) / float64(j.Count)
			if j.Count == 1 {
				stddev = 0
			} else {
				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
				div := float64(j.Count) * float64(j.Count-1)
				// rounding can make a variance of zero negative
				if variance := num / div; variance > 0 {
					stddev = math.Sqrt(variance)
				}
			}
		}
''','''		avg, stddev := statistics(&j.TimerAggregation)
'''),('''func filterJobs(''','''// statistics returns the average and the sample standard deviation.
func statistics(t *health.TimerAggregation) (avg, stddev float64) {
	if t.Count == 0 {
		return 0, 0
	}
	n, sum := float64(t.Count), float64(t.NanosSum)
	avg = sum / n
	if t.Count == 1 {
		return avg, 0
	}
	variance := (n*t.NanosSumSquares - math.Pow(sum, 2)) / (n * float64(t.Count-1))
	// rounding can make a variance of zero negative
	if variance <= 0 || math.IsNaN(variance) {
		return avg, 0
	}
	return avg, math.Sqrt(variance)
}

func filterJobs('''),('''	if limit > 0 {
		max := len(jobs)
		if limit > max {
			limit = max
		}
		jobs = jobs[0:limit]
	}

	return jobs
''','''	if 0 < limit && limit < len(jobs) {
		return jobs[:limit]
	}
	return jobs
'''),('''	limit := r.URL.Query().Get("limit")
	if limit == "" {
		return 0
	}

	n, err := strconv.ParseInt(limit, 10, 0)
	if err != nil {
		return 0
	}
	return int(n)
''','''	n, err := strconv.Atoi(r.URL.Query().Get("limit"))
	if err != nil {
		return 0
	}
	return n
'''),('''	var status health.CompletionStatus
	// if c.Panic {
	// 	status = health.Panic
	// } else
	if code < 400 {
		status = health.Success
	} else if code == 422 {
		status = health.ValidationError
	} else if code < 500 {
		status = health.Junk // 404, 401
	} else {
		status = health.Error
	}
	c.CompleteKv(status, kvs)
''','''	c.CompleteKv(completionStatus(code), kvs)
'''),('''func (c *apiContext) Aggregations(''','''func completionStatus(code int) health.CompletionStatus {
	switch {
	case code == 422:
		return health.ValidationError
	case code >= 500:
		return health.Error
	case code >= 400:
		return health.Junk // 404, 401
	}
	return health.Success
}

func (c *apiContext) Aggregations('''))
sub('healthd/debouncer.go',('''		select {
		case <-needitdone:
			if oldestNeedItDone.IsZero() {
				oldestNeedItDone = now()
			}
		default:
			// This sleep time is the max error that we'll be off by.
			time.Sleep(sleepTime)
		}

		if !oldestNeedItDone.IsZero() && (now().Sub(oldestNeedItDone) > threshold) {
			doit <- struct{}{}
			oldestNeedItDone = time.Time{} // Zero the object
		}
''','''		select {
		case <-needitdone:
			if !pending {
				oldestNeedItDone, pending = now(), true
			}
		default:
			// This sleep time is the max error that we'll be off by.
			time.Sleep(sleepTime)
		}

		if pending && now().After(oldestNeedItDone.Add(threshold)) {
			doit <- struct{}{}
			pending = false
		}
'''),('''	var oldestNeedItDone time.Time
''','''	var oldestNeedItDone time.Time
	pending := false
'''))
sub('healthd/poll.go',('''	resp, err := client.Get(metricsUrl(hostPort))
	if err != nil {
		response.Err = job.EventErr("poll.client.get", err)
		goto POLL_FINISH
	}
	defer resp.Body.Close()
	body, err = ioutil.ReadAll(resp.Body)

	response.Nanos = time.Since(start).Nanoseconds() // don't mock b/c we need duration
	response.Code = resp.StatusCode

	if err != nil { // ioutil.ReadAll. We're checking here b/c we still want to capture nanos/code
		response.Err = job.EventErr("poll.ioutil.read_all", err)
		goto POLL_FINISH
	}

	if err := json.Unmarshal(body, &response.HealthAggregationsResponse); err != nil {
		response.Err = job.EventErr("poll.json.unmarshall", err)
		goto POLL_FINISH
	}

POLL_FINISH:

	if response.Err != nil {
		job.CompleteKv(health.Error, health.Kvs{"host_port": hostPort})
	} else {
		job.CompleteKv(health.Success, health.Kvs{"host_port": hostPort})
	}

	responses <- response
}
''','''	response.Err = response.fetch(job, client, start)

	status := health.Success
	if response.Err != nil {
		status = health.Error
	}
	job.CompleteKv(status, health.Kvs{"host_port": hostPort})

	responses <- response
}

func (response *pollResponse) fetch(job *health.Job, client *http.Client, start time.Time) error {
	resp, err := client.Get(metricsUrl(response.HostPort))
	if err != nil {
		return job.EventErr("poll.client.get", err)
	}
	defer resp.Body.Close()

	body, err := io.ReadAll(resp.Body)

	response.Code = resp.StatusCode
	response.Nanos = time.Since(start).Nanoseconds() // don't mock b/c we need duration

	if err != nil {
		return job.EventErr("poll.ioutil.read_all", err)
	}
	if err := json.Unmarshal(body, &response.HealthAggregationsResponse); err != nil {
		return job.EventErr("poll.json.unmarshall", err)
	}
	return nil
}
'''),('''	var body []byte
	var err error

''',''),('''	"io/ioutil"
''','''	"io"
'''))
# cmds
for f,g in (('jobs','Jobs'),('hosts','Hosts')):
    sub('cmd/healthtop/%s.go'%f,('''	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		errors <- fmt.Errorf("healthd responded with status code %%d", resp.StatusCode)
		return
	}
	body, err = ioutil.ReadAll(resp.Body)
	if err != nil {
		errors <- err
		return
	}

	var response healthd.ApiResponse%s
	if err := json.Unmarshal(body, &response); err != nil {
		errors <- err
		return
	}
'''%g,'''	defer resp.Body.Close()

	var response healthd.ApiResponse%s
	if err := decode(resp, &response); err != nil {
		errors <- err
		return
	}
'''%g),('	var body []byte\n\n',''),('	"io/ioutil"\n',''),('	"encoding/json"\n',''))
sub('cmd/healthtop/main.go',('''var sourceHostPort string
''','''var sourceHostPort string

// decode reads a response of healthd.
func decode(resp *http.Response, v interface{}) error {
	if code := resp.StatusCode; code != http.StatusOK {
		return fmt.Errorf("healthd responded with status code %d", code)
	}
	body, err := ioutil.ReadAll(resp.Body)
	if err == nil {
		err = json.Unmarshal(body, v)
	}
	return err
}
'''),('''import (
	"fmt"
	"github.com/spf13/cobra"
''','''import (
	"encoding/json"
	"fmt"
	"github.com/spf13/cobra"
	"io/ioutil"
	"net/http"
'''))
sub('cmd/healthtop/jobs.go',('''	filteredSlice := []*healthd.Job{}

	for _, job := range resp.Jobs {
		if strings.Contains(job.Name, name) {
			filteredSlice = append(filteredSlice, job)
		}
	}

	resp.Jobs = filteredSlice
''','''	kept := resp.Jobs[:0]
	for _, job := range resp.Jobs {
		if !strings.Contains(job.Name, name) {
			continue
		}
		kept = append(kept, job)
	}
	resp.Jobs = kept
'''),('''	n := goterm.Height() - 2
	if n < 3 {
		n = 3
	}
	return uint(n)
''','''	return uint(max(goterm.Height()-2, 3))
'''),('''	var units string
	switch {
	case nanos > 2000000:
		units = "ms"
		nanos /= 1000000
	case nanos > 1000:
		units = "μs"
		nanos /= 1000
	default:
		units = "ns"
	}

	printCellString(fmt.Sprintf("%d %s", nanos, units), table, isBold, isGreen, isRed)
''','''	units := "ns"
	if nanos > 2000000 {
		nanos, units = nanos/1000000, "ms"
	} else if nanos > 1000 {
		nanos, units = nanos/1000, "μs"
	}

	printCellString(strconv.FormatInt(nanos, 10)+" "+units, table, isBold, isGreen, isRed)
'''),('''	"net/url"
''','''	"net/url"
	"strconv"
'''))
t=open(R+'cmd/healthd/main.go').read()
t=t.replace('''	ret := os.Getenv("HEALTH_HOSTPORT")
	if ret == "" {
		ret = ":5030"
	}
	return ret
''','''	return getenv("HEALTH_HOSTPORT", ":5030")
''').replace('''	ret := os.Getenv("HEALTHD_SERVER_HOSTPORT")
	if ret == "" {
		ret = ":5031"
	}
	return ret
''','''	return getenv("HEALTHD_SERVER_HOSTPORT", ":5031")
''')+'''
func getenv(name, def string) string {
	if v, ok := os.LookupEnv(name); ok && v != "" {
		return v
	}
	return def
}
'''
open(R+'cmd/healthd/main.go','w').write(t)
