T='lib/timer/src/lib.rs'; X='lib/metrics/src/lib.rs'
M=[
('t-real',[(T,'use libc::{timespec, CLOCK_MONOTONIC};','use libc::{timespec, CLOCK_REALTIME as CLOCK_MONOTONIC};')],'T01',''),
('t-start-over',[(T,'''        if self.start.is_some() {
            false
        } else {
            self.start.replace(now());

            true
        }''','''        let fresh = self.start.is_none();
        self.start.replace(now());
        fresh''')],'T01',''),
('t-stop-over',[(T,'if self.start.is_none() || self.stop.is_some() {\n            return None;','if self.start.is_none() {\n            return None;')],'T01',''),
('t-ref-start',[(T,'''        if self.start.is_some() {
            false
        } else {
            self.start.replace(now());

            true
        }''','''        if self.start.is_none() {
            self.start = Some(now());
            return true;
        }
        false''')],'','T01'),
('t-ref-ins',[(T,'self.stop.replace(now());','self.stop = Some(now());')],'','T01'),
]
M+=[
('t-reset-half',[(T,'        self.stop.take();\n        self.start.take();','        self.start.take();')],'T01',''),
('t-running',[(T,'self.start.is_some() && self.stop.is_none()','self.start.is_some()')],'T01',''),
('t-duration-run',[(T,'Some(self.stop? - self.start?)','Some(self.stop.unwrap_or_else(now) - self.start?)')],'T01',''),
('t-nsround',[(T,'let ns = u32::try_from(timespec.tv_nsec).unwrap_or_else(|_| {','let ns = u32::try_from(timespec.tv_nsec / 1000 * 1000).unwrap_or_else(|_| {')],'T01',''),
('t-ns-edge',[(T,'Duration::new(s, ns)','if ns > 999_999_000 { Duration::new(s + 1, 0) } else { Duration::new(s, ns) }')],'T01',''),
('t-sub-ref',[(T,'Some(self.stop? - self.start?)','self.stop?.checked_sub(self.start?)')],'','T01'),
('t-dur-ref',[(T,'''        self.stop.replace(now());

        self.duration()''','''        let at = now();
        self.stop = Some(at);

        self.start.map(|s| at - s)''')],'','T01'),
('t-match-ref',[(T,'Some(self.stop? - self.start?)','match (self.start, self.stop) { (Some(a), Some(b)) => Some(b - a), _ => None }')],'','T01'),
('m-nonatomic',[(X,'*metrics.counters.entry(counter).or_default() += 1;','let n = metrics.counters.get(&counter).map(|r| *r).unwrap_or(0);\n                metrics.counters.insert(counter, n + 1);')],'M01',''),
('m-swap',[(X,'*metrics.gauges.entry(gauge).or_default() = value;','*metrics.counters.entry(gauge).or_default() = value;')],'M01',''),
('m-gauge-add',[(X,'*metrics.gauges.entry(gauge).or_default() = value;','*metrics.gauges.entry(gauge).or_insert(value) = value.max(1);')],'M01',''),
('m-gauge-once',[(X,'*metrics.gauges.entry(gauge).or_default() = value;','metrics.gauges.entry(gauge).or_insert(value);')],'M01',''),
('m-first',[(X,'*metrics.counters.entry(counter).or_default() += 1;','metrics.counters.entry(counter).and_modify(|n| *n += 1).or_default();')],'M01',''),
('m-first-ok',[(X,'*metrics.counters.entry(counter).or_default() += 1;','metrics.counters.entry(counter).and_modify(|n| *n += 1).or_insert(1);')],'','M01'),
('m-sat',[(X,'*metrics.counters.entry(counter).or_default() += 1;','let mut n = metrics.counters.entry(counter).or_insert(0);\n                *n = n.saturating_add(1);')],'','M01'),
('m-wrap32',[(X,'*metrics.counters.entry(counter).or_default() += 1;','let mut n = metrics.counters.entry(counter).or_insert(0);\n                *n = (*n as u32).wrapping_add(1) as u64;')],'M01',''),
('m-snap',[(X,'gauges: self.0.gauges.clone(),','gauges: self.0.counters.clone(),')],'M01',''),
('m-snap-empty',[(X,'gauges: self.0.gauges.clone(),','gauges: DashMap::new(),')],'M01',''),
('m-read-gauge',[(X,'.and_then(|metrics| metrics.gauges.get(gauge).as_deref().copied())','.and_then(|metrics| metrics.counters.get(gauge).as_deref().copied())')],'M01',''),
('m-read-zero',[(X,'.and_then(|metrics| metrics.counters.get(counter).as_deref().copied())','.map(|metrics| metrics.counters.get(counter).as_deref().copied().unwrap_or(0))')],'M01',''),
('m-valid',[(X,'self.metrics.strong_count() > 0','self.metrics.weak_count() > 0')],'M01',''),
('m-valid1',[(X,'self.metrics.strong_count() > 0','self.metrics.strong_count() > 1')],'M01',''),
('m-valid-ok',[(X,'self.metrics.strong_count() > 0','self.metrics.upgrade().is_some()')],'','M01'),
('m-ans',[(X,'''                *metrics.counters.entry(counter).or_default() += 1;
            })
            .is_some()''','''                *metrics.counters.entry(counter).or_default() += 1;
            })
            .is_none()''')],'M01',''),
('m-match-ok',[(X,'''        self.metrics
            .upgrade()
            .map(|metrics| {
                *metrics.counters.entry(counter).or_default() += 1;
            })
            .is_some()''','''        match self.metrics.upgrade() {
            Some(metrics) => {
                let mut entry = metrics.counters.entry(counter).or_insert(0);
                *entry += 1;
                true
            }
            None => false,
        }''')],'','M01'),
]
