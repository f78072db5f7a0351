import re, sys,os
R=sys.argv[1].rstrip('/')+'/' # a scratch copy of /repo
def sub(f,*prs):
    t=open(R+f).read()
    for a,b in prs:
        assert t.count(a)>=1,(f,a)
        t=t.replace(a,b)
    open(R+f,'w').write(t)
# health.go
t=open(R+'health.go').read()
t=re.sub(r'for _, sink := range j\.Stream\.Sinks \{\n\t\t(sink\.Emit.*)\n\t\}', r'j.eachSink(func(sink Sink) {\n\t\t\1\n\t})', t)
t=t.replace('''	if err, ok := err.(*UnmutedError); ok {
		err.Emitted = true
	}
	return err
''','''	markEmitted(err)
	return err
''')
t+='''
func markEmitted(err error) {
	u, isUnmuted := err.(*UnmutedError)
	if !isUnmuted {
		return
	}
	u.Emitted = true
}

func (j *Job) eachSink(f func(Sink)) {
	sinks := j.Stream.Sinks
	for i := 0; i < len(sinks); i++ {
		f(sinks[i])
	}
}
'''
t=t.replace('''		for k, v := range j.Stream.KeyValues {
			allKvs[k] = v
		}
		for k, v := range j.KeyValues {
			allKvs[k] = v
		}
		for k, v := range instanceKvs {
			allKvs[k] = v
		}
''','''		for _, m := range []map[string]string{j.Stream.KeyValues, j.KeyValues, instanceKvs} {
			maps.Copy(allKvs, m)
		}
''').replace('"fmt"\n','"fmt"\n\t"maps"\n')
t=t.replace('''	err = f()
	if err != nil {
		j.Complete(Error)
	} else {
		j.Complete(Success)
	}

	return
''','''	status := Success
	if err = f(); err != nil {
		status = Error
	}
	j.Complete(status)
	return err
''')
t=t.replace('''func (j *Job) Event(eventName string) {
	allKvs := j.mergedKeyValues(nil)
	j.eachSink(func(sink Sink) {
		sink.EmitEvent(j.JobName, eventName, allKvs)
	})
}''','''func (j *Job) Event(eventName string) {
	j.EventKv(eventName, nil)
}''')
open(R+'health.go','w').write(t)
sub('aggregator.go',('''			if cmd.Kind == cmdKindEvent {
				agg.EmitEvent(cmd.Job, cmd.Event)
			} else if cmd.Kind == cmdKindEventErr {
				agg.EmitEventErr(cmd.Job, cmd.Event, cmd.Err)
			} else if cmd.Kind == cmdKindTiming {
				agg.EmitTiming(cmd.Job, cmd.Event, cmd.Nanos)
			} else if cmd.Kind == cmdKindGauge {
				agg.EmitGauge(cmd.Job, cmd.Event, cmd.Value)
			} else if cmd.Kind == cmdKindComplete {
				agg.EmitComplete(cmd.Job, cmd.Status, cmd.Nanos)
			}
''','''			handlers[cmd.Kind](agg, cmd)
'''),('''func newAgg''','''var handlers = [...]func(*aggregator, *emitCmd){
	cmdKindEvent:    func(a *aggregator, c *emitCmd) { a.EmitEvent(c.Job, c.Event) },
	cmdKindEventErr: func(a *aggregator, c *emitCmd) { a.EmitEventErr(c.Job, c.Event, c.Err) },
	cmdKindTiming:   func(a *aggregator, c *emitCmd) { a.EmitTiming(c.Job, c.Event, c.Nanos) },
	cmdKindGauge:    func(a *aggregator, c *emitCmd) { a.EmitGauge(c.Job, c.Event, c.Value) },
	cmdKindComplete: func(a *aggregator, c *emitCmd) { a.EmitComplete(c.Job, c.Status, c.Nanos) },
}

func newAgg'''),('''		for i := 1; i < n; i++ {
			a.intervalAggregations[i-1] = a.intervalAggregations[i]
		}
''','''		copy(a.intervalAggregations, a.intervalAggregations[1:])
'''),('''	ret := make([]*IntervalAggregation, 0, len(a.intervalAggregations))
	curAgg := a.getIntervalAggregation()

	for _, intAgg := range a.intervalAggregations {
		if intAgg == curAgg {
			ret = append(ret, intAgg.Clone())
		} else {
			ret = append(ret, intAgg)
		}
	}

	return ret
''','''	curAgg := a.getIntervalAggregation()
	ret := append([]*IntervalAggregation(nil), a.intervalAggregations...)
	ret[len(ret)-1] = curAgg.Clone()
	return ret
'''),('''	intAgg.Events[event] = intAgg.Events[event] + 1
	jobAgg := intAgg.getJobAggregation(job)
	jobAgg.Events[event] = jobAgg.Events[event] + 1
	intAgg.SerialNumber++
''','''	intAgg.SerialNumber++
	for _, m := range []*aggregationMaps{&intAgg.getJobAggregation(job).aggregationMaps, &intAgg.aggregationMaps} {
		m.Events[event]++
	}
'''))
sub('json_polling_sink.go',('''	intervalsChan := make(chan []*IntervalAggregation)
''','''	intervalsChan := make(chan []*IntervalAggregation, 1)
'''))
sub('interval_aggregation_clone.go',('''	for k, v := range am.Events {
		dup.Events[k] = v
	}

	for k, v := range am.Gauges {
		dup.Gauges[k] = v
	}
''','''	maps.Copy(dup.Events, am.Events)
	maps.Copy(dup.Gauges, am.Gauges)
'''),('package health\n','package health\n\nimport "maps"\n'),('''	dup := &JobAggregation{
		CountSuccess:         ja.CountSuccess,
		CountValidationError: ja.CountValidationError,
		CountPanic:           ja.CountPanic,
		CountError:           ja.CountError,
		CountJunk:            ja.CountJunk,
	}

	dup.aggregationMaps = *ja.aggregationMaps.Clone()
	dup.TimerAggregation = ja.TimerAggregation

	return dup
''','''	dup := *ja
	dup.aggregationMaps = *ja.aggregationMaps.Clone()
	return &dup
'''))
sub('interval_aggregation_merge.go',('''		if existingTimer, ok := intoAm.Timers[k]; ok {
			existingTimer.merge(v)
		} else {
			intoAm.Timers[k] = v.Clone()
		}
''','''		intoAm.getTimers(k).merge(v)
'''),('''			for _, err := range v.errorSamples {
				if err != nil {
					existingErrCounter.addError(err)
				}
			}
''','''			for _, err := range v.getErrorSamples() {
				existingErrCounter.addError(err)
			}
'''))
sub('interval_aggregation.go',('''	if status == Success {
		a.CountSuccess++
	} else if status == ValidationError {
		a.CountValidationError++
	} else if status == Panic {
		a.CountPanic++
	} else if status == Error {
		a.CountError++
	} else if status == Junk {
		a.CountJunk++
	}
''','''	switch status {
	case Success:
		a.CountSuccess++
	case ValidationError:
		a.CountValidationError++
	case Panic:
		a.CountPanic++
	case Error:
		a.CountError++
	case Junk:
		a.CountJunk++
	}
'''),('''	count := 0
	for _, e := range ec.errorSamples {
		if e != nil {
			count++
		}
	}
	ret := make([]error, 0, count)
''','''	ret := make([]error, 0, len(ec.errorSamples))
'''))
sub('json_polling_sink_http.go',('''	if r.URL.Path == "/health" {
''','''	switch r.URL.Path {
	default:
		renderNotFound(rw)
	case "/health":
'''),('''		rw.Write(jsonData)
	} else {
		renderNotFound(rw)
	}
''','''		_, _ = rw.Write(jsonData)
	}
'''))
# statsd
t=open(R+'statsd_sink.go').read()
a=t.index('func (s *StatsDSink) processEvent(');b=t.index('func (s *StatsDSink) flush()')
t=t[:a]+'''func (s *StatsDSink) processEvent(job string, event string) {
	s.both(job, event, "", []byte("1"), "|c\\n")
}

func (s *StatsDSink) processEventErr(job string, event string) {
	s.both(job, event, "error", []byte{'1'}, "|c\\n")
}

func (s *StatsDSink) processTiming(job string, event string, nanos int64) {
	s.writeNanosToTimingBuf(nanos)
	s.both(job, event, "", s.timingBuf, "|ms\\n")
}

func (s *StatsDSink) processGauge(job string, event string, value float64) {
	prec := -1
	if math.Abs(value) >= 0.1 || value != value {
		prec = 2
	}
	s.timingBuf = strconv.AppendFloat(s.timingBuf[:0], value, 'f', prec, 64)
	s.both(job, event, "", s.timingBuf, "|g\\n")
}

func (s *StatsDSink) processComplete(job string, status CompletionStatus, nanos int64) {
	s.writeNanosToTimingBuf(nanos)
	s.metric(job, "", status.String(), s.timingBuf, "|ms\\n")
}

func (s *StatsDSink) both(job, event, suffix string, value []byte, unit string) {
	jobs := []string{"", job}
	for i, skip := range []bool{s.options.SkipTopLevelEvents, s.options.SkipNestedEvents} {
		if skip {
			continue
		}
		s.metric(jobs[i], event, suffix, value, unit)
	}
}

func (s *StatsDSink) metric(job, event, suffix string, value []byte, unit string) {
	pb := s.getPrefixBuffer(job, event, suffix)
	pb.Write(value)
	pb.WriteString(unit)
	s.writeStatsDMetric(pb.Bytes())
}

'''+t[b:]
t=t.replace('import (\n\t"bytes"\n','import (\n\t"bytes"\n\t"math"\n')
t=t.replace('''	if s.udpBuf.Len() > 0 {
		s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
		s.udpBuf.Truncate(0)
	}
''','''	if s.udpBuf.Len() == 0 {
		return
	}
	defer s.udpBuf.Reset()
	s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
''').replace('''	lenUdpBuf := s.udpBuf.Len()

	if (lenb + lenUdpBuf) > maxUdpBytes {
		s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
		s.udpBuf.Truncate(0)
	}
''','''	if free := maxUdpBytes - s.udpBuf.Len(); lenb > free {
		s.flush()
	}
''').replace('''	needDot := false
	for _, k := range keys {
		if k != "" {
			if needDot {
				b.WriteByte('.')
			}
			s.options.SanitizationFunc(b, k)
			needDot = true
		}
	}
''','''	sep := ""
	for _, k := range keys {
		if len(k) == 0 {
			continue
		}
		b.WriteString(sep)
		s.options.SanitizationFunc(b, k)
		sep = "."
	}
''').replace('''		if ('A' <= si && si <= 'Z') || ('a' <= si && si <= 'z') || ('0' <= si && s[i] <= '9') || si == '_' || si == '.' {
			b.WriteByte(si)
		} else {
			b.WriteByte('$')
		}
''','''		switch {
		case 'A' <= si && si <= 'Z', 'a' <= si && si <= 'z', '0' <= si && si <= '9', si == '_', si == '.':
		default:
			si = '$'
		}
		b.WriteByte(si)
''').replace('''		for _ = range ticker.C {
			cmdChan''','''		for {
			<-ticker.C
			cmdChan''')
open(R+'statsd_sink.go','w').write(t)
# writer sink
t=open(R+'writer_sink.go').read()
for kind in (' event:',' status:'):
    pass
t=re.sub(r'''	b\.WriteRune\('\['\)
	b\.WriteString\(timestamp\(\)\)
	b\.WriteString\("\]: job:"\)
	b\.WriteString\(job\)
	b\.WriteString\("( \w+:)"\)
	b\.WriteString\(([^\n]*)\)
''',r'''	fmt.Fprintf(&b, "[%s]: job:%s\1%s", timestamp(), job, \2)
''',t)
t=t.replace('''	writeMapConsistently(&b, kvs)
	b.WriteRune('\\n')
	s.Writer.Write(b.Bytes())
''','''	s.finish(&b, kvs)
''')
t+='''
func (s *WriterSink) finish(b *bytes.Buffer, kvs map[string]string) {
	writeMapConsistently(b, kvs)
	b.WriteByte('\\n')
	b.WriteTo(s.Writer)
}
'''
t=t.replace('''	keys := make([]string, 0, len(kvs))
	for k := range kvs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	keysLenMinusOne := len(keys) - 1

	b.WriteString(" kvs:[")
	for i, k := range keys {
		b.WriteString(k)
		b.WriteRune(':')
		b.WriteString(kvs[k])

		if i != keysLenMinusOne {
			b.WriteRune(' ')
		}
	}
	b.WriteRune(']')
''','''	pairs := make([]string, 0, len(kvs))
	for _, k := range slices.Sorted(maps.Keys(kvs)) {
		pairs = append(pairs, k+":"+kvs[k])
	}
	b.WriteString(" kvs:[" + strings.Join(pairs, " ") + "]")
''').replace('"sort"\n','"maps"\n\t"slices"\n\t"strings"\n')
open(R+'writer_sink.go','w').write(t)
t=open(R+'json_writer_sink.go').read()
t=re.sub(r'b, err := json\.Marshal\((struct \{.*?\})\)\n\n\tif err != nil \{\n\t\treturn\n\t\}\n\tj\.Write\(b\)\n',r'j.writeJson(\1)\n',t,flags=re.S)
t+='''
func (j *JsonWriterSink) writeJson(v any) {
	if b, err := json.Marshal(v); err == nil {
		j.Write(b)
	}
}
'''
open(R+'json_writer_sink.go','w').write(t)
# stack
sub('stack/stack.go',('''	frames := make([]Frame, len(t.stack))

	for i, pc := range t.stack {
		frames[i] = NewFrame(pc)
	}
''','''	var frames []Frame
	for _, pc := range t.stack {
		frames = append(frames, NewFrame(pc))
	}
'''),('''	buf := bytes.Buffer{}

	for _, frame := range t.Frames() {
		buf.WriteString(frame.String())
		buf.WriteRune('\\n')
	}

	return buf.Bytes()
''','''	var buf bytes.Buffer
	frames := t.Frames()
	for i := range frames {
		fmt.Fprintln(&buf, frames[i].String())
	}
	return buf.Bytes()
'''),('"bytes"\n','"bytes"\n\t"fmt"\n'))
sub('stack/frame.go',('''	if lastslash := strings.LastIndex(name, "/"); lastslash >= 0 {
		pkg += name[:lastslash] + "/"
		name = name[lastslash+1:]
	}
	if period := strings.Index(name, "."); period >= 0 {
		pkg += name[:period]
		name = name[period+1:]
	}

	return pkg, name
''','''	slash := strings.LastIndexByte(name, '/') + 1
	pkg, name = name[:slash], name[slash:]
	if before, after, ok := strings.Cut(name, "."); ok {
		return pkg + before, after
	}
	return pkg, name
'''))
# runtime metrics
sub('runtime_metrics/runtime_metrics.go',('''		rm.reportGauge("pause_total_ns", float64(mem.PauseTotalNs))
		rm.reportGauge("num_gc", float64(mem.NumGC))
		rm.reportGauge("next_gc", float64(mem.NextGC))
		rm.reportGauge("gc_cpu_fraction", mem.GCCPUFraction)
''','''		for _, g := range []struct {
			name string
			v    float64
		}{
			{"pause_total_ns", float64(mem.PauseTotalNs)},
			{"num_gc", float64(mem.NumGC)},
			{"next_gc", float64(mem.NextGC)},
			{"gc_cpu_fraction", mem.GCCPUFraction},
		} {
			rm.reportGauge(g.name, g.v)
		}
'''),('''	ticker := time.NewTicker(rm.options.Interval)

METRICS_POOLER_LOOP:
	for {
		select {
		case <-rm.stopChan:
			break METRICS_POOLER_LOOP
		case <-ticker.C:
			rm.Report()
		}
	}

	ticker.Stop()
	rm.stopStopChan <- true
''','''	ticker := time.NewTicker(rm.options.Interval)
	defer func() {
		ticker.Stop()
		rm.stopStopChan <- true
	}()
	for {
		select {
		case <-ticker.C:
			rm.Report()
		case <-rm.stopChan:
			return
		}
	}
'''))
# bugsnag
sub('sinks/bugsnag/api.go',('''	for _, frame := range trace.Frames() {
		pf := payloadFrame{
			File:       frame.File,
			LineNumber: frame.LineNumber,
			Method:     frame.Package + ":" + frame.Name,
			InProject:  !frame.IsSystemPackage,
		}
		except.Stacktrace = append(except.Stacktrace, pf)
	}
''','''	for _, frame := range trace.Frames() {
		except.Stacktrace = append(except.Stacktrace, newPayloadFrame(frame))
	}
'''),('''func newPayload(''','''func newPayloadFrame(frame stack.Frame) payloadFrame {
	return payloadFrame{
		InProject:  !frame.IsSystemPackage,
		Method:     fmt.Sprintf("%s:%s", frame.Package, frame.Name),
		File:       frame.File,
		LineNumber: frame.LineNumber,
	}
}

func newPayload('''),('''	if requestUrl, requestUrlExists := kvs["request"]; requestUrlExists {
		evt.Metadata.Request.Url = requestUrl
	}

	if formData, formDataExists := kvs["formdata"]; formDataExists {
		evt.Metadata.Request.Parameters = formData
	}
''','''	evt.Metadata.Request = request{Url: kvs["request"], Parameters: kvs["formdata"]}
'''),('ioutil.ReadAll','io.ReadAll'),('"io/ioutil"','"io"'),('bytes.NewBuffer(data)','bytes.NewReader(data)'))
sub('sinks/bugsnag/sink.go',('''	switch inputErr := inputErr.(type) {
	case *health.UnmutedError:
		if !inputErr.Emitted {
			select {
			case s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: copyKvs(kvs)}:
			case <-s.doneDoneChan:
				// Nobody sends errors after ShutdownServer.
			}
		}
	case *health.MutedError:
	// Do nothing!
	default: // eg, case error:
		// This shouldn't happen, all errors passed in here should be wrapped.
	}
''','''	unmuted, ok := inputErr.(*health.UnmutedError)
	if !ok || unmuted.Emitted {
		return
	}
	cmd := &cmdEventErr{Job: job, Event: event, Err: unmuted, Kvs: maps.Clone(kvs)}
	select {
	case <-s.doneDoneChan:
	case s.cmdChan <- cmd:
	}
'''),('"github.com/gocraft/health"\n','"github.com/gocraft/health"\n\t"maps"\n'))
# librato
sub('sinks/librato/sink.go',('''	key1, key2 := s.eventKeys(job, event, "count")
	s.inc(key1)
	s.inc(key2)
''','''	s.incBoth(job, event, "count")
'''),('''	key1, key2 := s.eventKeys(job, event, "error.count")
	s.inc(key1)
	s.inc(key2)
''','''	s.incBoth(job, event, "error.count")
'''),('''func (s *Sink) inc(key''','''func (s *Sink) incBoth(job, event, suffix string) {
	top, nested := s.eventKeys(job, event, suffix)
	for _, k := range []string{nested, top} {
		s.inc(k)
	}
}

func (s *Sink) inc(key'''),('''	var key1 bytes.Buffer // event
	var key2 bytes.Buffer // job.event

	if s.prefix != "" {
		key1.WriteString(s.prefix)
		key1.WriteRune('.')
		key2.WriteString(s.prefix)
		key2.WriteRune('.')
	}

	key1.WriteString(s.SanitizationFunc(event))
	key2.WriteString(s.SanitizationFunc(job))
	key2.WriteRune('.')
	key2.WriteString(s.SanitizationFunc(event))

	if suffix != "" {
		key1.WriteRune('.')
		key1.WriteString(suffix)
		key2.WriteRune('.')
		key2.WriteString(suffix)
	}

	return key1.String(), key2.String()
''','''	prefix := ""
	if s.prefix != "" {
		prefix = s.prefix + "."
	}
	ev := s.SanitizationFunc(event)
	if suffix != "" {
		ev += "." + suffix
	}
	return prefix + ev, prefix + s.SanitizationFunc(job) + "." + ev
'''),('''		g = &gauge{Min: value, Max: value, Sum: value, Count: 1, SumSquares: value * value, Attributes: defaultTimerAttributes}
		s.timers[key] = g
	} else {
		g.Count++
		g.Sum += value
		g.SumSquares += value * value

		if value < g.Min {
			g.Min = value
		}
		if value > g.Max {
			g.Max = value
		}
	}
''','''		g = &gauge{Min: value, Max: value, Attributes: defaultTimerAttributes}
		s.timers[key] = g
	}
	g.Count++
	g.Sum += value
	g.SumSquares += value * value
	if g.Min > value {
		g.Min = value
	}
	if g.Max < value {
		g.Max = value
	}
'''),('''	for _, r := range k {
		if shouldSanitize(r) {
			goto SANITIZE
		}
	}
	return k
SANITIZE:
	var key bytes.Buffer
	for _, r := range k {
		if shouldSanitize(r) {
			key.WriteRune('_')
		} else {
			key.WriteRune(r)
		}
	}
	return key.String()
''','''	return strings.Map(func(r rune) rune {
		if shouldSanitize(r) {
			return '_'
		}
		return r
	}, k)
'''),('"os"\n','"os"\n\t"strings"\n'),('''	switch {
	case 'A' <= r && r <= 'Z':
		fallthrough
	case 'a' <= r && r <= 'z':
		fallthrough
	case '0' <= r && r <= '9':
		fallthrough
	case r == '.':
		fallthrough
	case r == ':':
		fallthrough
	case r == '-':
		fallthrough
	case r == '_':
		return false
	}
	return true
''','''	alnum := 'A' <= r && r <= 'Z' || 'a' <= r && r <= 'z' || '0' <= r && r <= '9'
	return !alnum && !strings.ContainsRune(".:-_", r)
'''))
# healthd
sub('healthd/healthd.go',('''		intAggsAtTime := []*health.IntervalAggregation{}

		for key, intAgg := range hd.hostAggregations {
			if key.Time == k {
				intAggsAtTime = append(intAggsAtTime, intAgg)
			}
		}

		overallAgg := health.NewIntervalAggregation(k)
		for _, ia := range intAggsAtTime {
			overallAgg.Merge(ia)
		}
		hd.setAggregation(overallAgg)
''','''		hd.setAggregation(hd.total(k))
'''),('''type ByInterval ''','''func (hd *HealthD) total(at time.Time) *health.IntervalAggregation {
	overall := health.NewIntervalAggregation(at)
	for key, intAgg := range hd.hostAggregations {
		if key.Time != at {
			continue
		}
		overall.Merge(intAgg)
	}
	return overall
}

type ByInterval '''),('''	// Otherwise, just append it and sort to get ordering right.
	agg.intervalAggregations = append(agg.intervalAggregations, intAgg)
	sort.Sort(ByInterval(agg.intervalAggregations))
''','''	i := sort.Search(len(agg.intervalAggregations), func(i int) bool {
		return agg.intervalAggregations[i].IntervalStart.After(intAgg.IntervalStart)
	})
	agg.intervalAggregations = slices.Insert(agg.intervalAggregations, i, intAgg)
'''),('"sort"\n','"slices"\n\t"sort"\n'),('''			existingIntAgg, ok := hd.hostAggregations[key]
			if ok && existingIntAgg.SerialNumber == intAgg.SerialNumber {
				// ignore; we already have this data
			} else {
				hd.hostAggregations[key] = intAgg
				hd.intervalsNeedingRecalculation[intAgg.IntervalStart] = struct{}{}
			}
''','''			if existing, ok := hd.hostAggregations[key]; ok && existing.SerialNumber == intAgg.SerialNumber {
				continue
			}
			hd.intervalsNeedingRecalculation[intAgg.IntervalStart] = struct{}{}
			hd.hostAggregations[key] = intAgg
'''),('''	var wg sync.WaitGroup
	for _, hs := range hd.hostStatus {
		wg.Add(1)
		go func(hs *HostStatus) {
			defer wg.Done()
			poll(hd.stream, hs.HostPort, responses)
		}(hs)
	}
	wg.Wait()
''','''	finished := make(chan struct{})
	n := 0
	for hp := range hd.hostStatus {
		n++
		go func() {
			poll(hd.stream, hp, responses)
			finished <- struct{}{}
		}()
	}
	for ; n > 0; n-- {
		<-finished
	}
'''))
sub('healthd/api.go',('''	if code < 400 {
		status = health.Success
	} else if code == 422 {
		status = health.ValidationError
	} else if code < 500 {
		status = health.Junk // 404, 401
	} else {
		status = health.Error
	}
''','''	switch {
	case code < 400:
		status = health.Success
	case code == 422:
		status = health.ValidationError
	case code < 500:
		status = health.Junk // 404, 401
	default:
		status = health.Error
	}
'''),('''		var avg, stddev float64
		if j.Count == 0 {
			avg = 0
			stddev = 0
		} else {
			avg = float64(j.NanosSum) / float64(j.Count)
			if j.Count == 1 {
				stddev = 0
			} else {
				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
				div := float64(j.Count) * float64(j.Count-1)
				// rounding can make a variance of zero negative
				if variance := num / div; variance > 0 {
					stddev = math.Sqrt(variance)
				}
			}
		}
''','''		avg, stddev := statistics(j)
'''),('''type HostStatusByHostPort ''','''func statistics(j *health.JobAggregation) (avg, stddev float64) {
	if j.Count == 0 {
		return 0, 0
	}
	n, sum := float64(j.Count), float64(j.NanosSum)
	avg = sum / n
	if j.Count > 1 {
		variance := (n*j.NanosSumSquares - sum*sum) / (n * float64(j.Count-1))
		stddev = math.Sqrt(math.Max(variance, 0))
	}
	return avg, stddev
}

type HostStatusByHostPort '''),('''	if limit > 0 {
		max := len(jobs)
		if limit > max {
			limit = max
		}
		jobs = jobs[0:limit]
	}
''','''	if limit > 0 {
		jobs = jobs[:min(limit, len(jobs))]
	}
'''),('''	n, err := strconv.ParseInt(limit, 10, 0)
	if err != nil {
		return 0
	}
	return int(n)
''','''	n, err := strconv.Atoi(limit)
	if err != nil {
		n = 0
	}
	return n
'''))
sub('healthd/debouncer.go',('''	var oldestNeedItDone time.Time
''','''	var (
		oldest  time.Time
		pending bool
	)
'''),('''			if oldestNeedItDone.IsZero() {
				oldestNeedItDone = now()
			}
''','''			if !pending {
				oldest, pending = now(), true
			}
'''),('''			time.Sleep(sleepTime)
''','''			<-time.After(sleepTime)
'''),('''		if !oldestNeedItDone.IsZero() && (now().Sub(oldestNeedItDone) > threshold) {
			doit <- struct{}{}
			oldestNeedItDone = time.Time{} // Zero the object
		}
''','''		if !pending {
			continue
		}
		if now().After(oldest.Add(threshold)) {
			doit <- struct{}{}
			pending = false
		}
'''))
