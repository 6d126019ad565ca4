V='engine/src/state/value.rs'; S='engine/src/state/mod.rs'; H='engine/src/hop.rs'; SM='engine/src/session/manager.rs'
M=[
('v-isset',[(V,'matches!(self, Value::Set(_))','matches!(self, Value::Set(_) | Value::Map(_))')],'V01',''),
('v-kind',[(V,'Self::List(_) => KeyType::List,','Self::List(_) => KeyType::Set,')],'V01',''),
('v-from',[(V,'''        Self::Integer(value)
    }
}''','''        Self::Float(value as f64)
    }
}''')],'V01',''),
('v-asbytes',[(V,'''    pub fn as_bytes_ref(&self) -> Option<&[u8]> {
        match self {
            Self::Bytes(inner) => Some(inner),''','''    pub fn as_bytes_ref(&self) -> Option<&[u8]> {
        match self {
            Self::Bytes(inner) => Some(inner),
            Self::String(inner) => Some(inner.as_bytes()),''')],'V01',''),
('v-float1',[(V,'Self::Float(0.0)','Self::Float(1.0)')],'V01',''),
('v-float0',[(V,'Self::Float(0.0)','Self::Float(f64::default())')],'','V01'),
('v-iflet',[(V,'''        match self {
            Self::Set(inner) => Some(inner),
            _ => None,
        }
    }

    pub fn as_set_mut''','''        if let Self::Set(inner) = self {
            return Some(inner);
        }
        None
    }

    pub fn as_set_mut''')],'','V01'),
('v-iskind',[(V,'matches!(self, Value::Set(_))','self.kind() == KeyType::Set')],'','V01'),
('s-insert-or',[(S,'self.0.insert(key, value)','''match self.0.remove(&key) {
            Some((k, old)) => { self.0.insert(k, value); Some(old) }
            None => self.0.insert(key, value),
        }''')],'V01',''),
('s-remove',[(S,'self.0.remove(key)','if self.0.get(key).map(|r| r.kind() == KeyType::Boolean).unwrap_or(false) { return None; }\n        self.0.remove(key)')],'V01',''),
('s-clone',[(S,'''#[derive(Clone, Debug, Default)]
pub struct State''','''impl Clone for State {
    fn clone(&self) -> Self {
        Self(Arc::new(DashMap::new()))
    }
}

#[derive(Debug, Default)]
pub struct State''')],'V01',''),
('s-koi',[(S,'self.0.entry(key.to_owned()).or_insert_with(f)','''if !self.0.contains_key(key) {
            self.0.insert(key.to_owned(), f());
        }
        self.0.get_mut(key).unwrap()''')],'V01 C08',''),
('s-koi-ok',[(S,'self.0.entry(key.to_owned()).or_insert_with(f)','''if let Some(found) = self.0.get_mut(key) {
            return found;
        }
        self.0.entry(key.to_owned()).or_insert_with(f)''')],'','V01 C08'),
('s-type-ok',[(S,'self.0.get(key).map(|r| r.value().kind())','match self.0.get(key) { Some(found) => Some(found.kind()), None => None }')],'','V01'),
('s-contains-ok',[(S,'self.0.contains_key(key)','self.0.get(key).is_some()')],'','V01'),
('h-drop',[(H,'config: builder.0,','config: Config { sessions_active_max: builder.0.sessions_active_max, ..Default::default() },')],'H01',''),
('h-default',[(H,'sessions_active_max: usize::MAX','sessions_active_max: u32::MAX as usize')],'H01',''),
('h-set',[(H,'self.0.sessions_active_max = sessions_active_max;','self.0.sessions_active_max = sessions_active_max.max(1);')],'H01',''),
('h-set2',[(H,'self.0.pubsub_enabled = pubsub_enabled;','self.0.pubsub_enabled &= pubsub_enabled;')],'H01',''),
('h-writer',[(H,'sessions: SessionManager::new(writer),','sessions: SessionManager::new(Metrics::default().writer()),')],'H01',''),
('h-metrics',[(H,'''            config: builder.0,
            ..Default::default()''','''            config: builder.0,
            metrics: Metrics::default(),
            ..Default::default()''')],'H01',''),
('h-metrics-ok',[(H,'''        Self(Arc::new(HopRef {
            config: builder.0,
            ..Default::default()
        }))''','''        let mut inner = HopRef::default();
        inner.config = builder.0;
        Self(Arc::new(inner))''')],'','H01'),
('h-clone',[(H,'''#[derive(Clone, Debug, Default)]
pub struct Hop(pub''','''impl Clone for Hop {
    fn clone(&self) -> Self {
        Self::from(Builder(self.0.config.clone()))
    }
}

#[derive(Debug, Default)]
pub struct Hop(pub''')],'H01',''),
('h-smclone',[(SM,'''#[derive(Clone, Debug)]
pub struct SessionManager(''','''impl Clone for SessionManager {
    fn clone(&self) -> Self {
        Self::new(self.0.metrics_writer.clone())
    }
}

#[derive(Debug)]
pub struct SessionManager(''')],'',''),
]
