P='engine/src/pubsub/manager.rs'
S='engine/src/session/manager.rs'
SS='engine/src/session/mod.rs'
PS='engine/src/pubsub/mod.rs'
UNS='''        let keys = match self.0.sessions.get(&session_id) {
            Some(keys) => keys,
            None => return false,
        };
        let unsubbed = keys.remove(object_key).is_some();

        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed
'''
KINS='''        self.0
            .keys
            .entry(object_key)
            .or_default()
            .insert(session_id);

        Some(subscription)
'''
REM='''        let session = match self.0.sessions.entry(session_id) {
            Entry::Occupied(session) => session,
            Entry::Vacant(_) => return false,
        };

        for sub in session.get().iter() {
            sub.value().close();

            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
        }

        // Subscriptions ended one by one leave an empty entry behind.
        !session.remove().is_empty()
'''
GET='''        let session = self.0.sessions.get(&session_id)?;
        let sub = session.get(object_key)?;

        Some(Arc::downgrade(sub.value()))
'''
SUBM='''        let subscription = match session.entry(object_key.clone()) {
            Entry::Occupied(_) => return None,
            Entry::Vacant(v) => {
                let subscription = Arc::new(Subscription::new());
                let weak = Arc::downgrade(&subscription);

                v.insert(subscription);

                weak
            }
        };
'''
ADD='''        let value = match self.0.sessions.entry(id) {
            Entry::Occupied(_) => {
                unreachable!();
            }
            Entry::Vacant(v) => v.insert(session),
        };
'''
RM='''        let removed = self.0.sessions.remove(&id).is_some();

        if removed {
            self.0.metrics_writer.increment(Metric::SessionsEnded);
        }

        removed
'''
FA='self.0.next_id.fetch_add(1, Ordering::SeqCst)'
INC='        self.0.metrics_writer.increment(Metric::SessionsStarted);\n'
ID='let id = '+FA+';'
M=[
# --- bugs in pubsub
('ps-early',[(P,UNS,'''        let unsubbed = match self.0.sessions.get(&session_id) {
            Some(keys) => keys.remove(object_key).is_some(),
            None => false,
        };

        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed
''')],'C15',''),
('ps-dropguard',[(P,'        let unsubbed = keys.remove(object_key).is_some();\n','        let unsubbed = keys.remove(object_key).is_some();\n        drop(keys);\n')],'C15',''),
('ps-nokey',[(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','        unsubbed')],'C15',''),
('ps-allkey',[(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''        self.0.keys.remove(object_key);

        unsubbed''')],'C15',''),
('ps-true',[(P,'\n        unsubbed\n','\n        true\n')],'C15',''),
('ps-keyansw',[(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''        match self.0.keys.get(object_key) {
            Some(sessions) => sessions.remove(&session_id).is_none() && unsubbed,
            None => unsubbed,
        }''')],'C15',''),
('ps-wholesess',[(P,UNS,'''        let unsubbed = self.0.sessions.remove(&session_id).is_some();

        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed
''')],'C15',''),
('ps-sub-late',[(P,KINS,'''        drop(session);
'''+KINS)],'C15',''),
('ps-sub-nokey',[(P,KINS,'''        if let Some(sessions) = self.0.keys.get(&object_key) {
            sessions.insert(session_id);
        }

        Some(subscription)
''')],'C15',''),
('ps-sub-fresh',[(P,KINS,'''        let sessions = DashSet::new();
        sessions.insert(session_id);
        self.0.keys.insert(object_key, sessions);

        Some(subscription)
''')],'C15',''),
('ps-sub-fresh2',[(P,'            Entry::Occupied(_) => return None,','''            Entry::Occupied(mut v) => {
                let subscription = Arc::new(Subscription::new());
                let weak = Arc::downgrade(&subscription);

                v.insert(subscription);

                weak
            }''')],'C15',''),
('ps-rem-noclose',[(P,'            sub.value().close();\n\n','')],'C15',''),
('ps-rem-nokeys',[(P,'''        for sub in session.get().iter() {
            sub.value().close();

            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
        }
''','''        for sub in session.get().iter() {
            sub.value().close();
        }
''')],'C15',''),
('ps-rem-dropkey',[(P,'''            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
''','''            self.0.keys.remove(sub.key());
''')],'C15',''),
('ps-rem-first',[(P,'for sub in session.get().iter() {','for sub in session.get().iter().take(1) {')],'C15',''),
('ps-rem-cond',[(P,'''            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove''','''            if let Some(sessions) = self.0.keys.get(sub.key()).filter(|s| s.len() > 1) {
                sessions.remove''')],'C15',''),
('ps-rem-true',[(P,'        !session.remove().is_empty()\n','        session.remove();\n\n        true\n')],'C15',''),
('ps-rem-orig',[(P,REM,'''        self.0
            .sessions
            .remove(&session_id)
            .map(|(_, subscriptions)| {
                for (key, sub) in subscriptions.into_iter() {
                    sub.close();

                    if let Some(sessions) = self.0.keys.get(&key) {
                        sessions.remove(&session_id);
                    }
                }
            })
            .is_some()
''')],'C15',''),
('ps-rem-stay',[(P,'        !session.remove().is_empty()\n','        !session.get().is_empty()\n')],'C15',''),
('ps-get-other',[(P,GET,'''        let session = self.0.sessions.get(&session_id)?;
        let sub = session.iter().next()?;
        let _ = object_key;

        Some(Arc::downgrade(sub.value()))
''')],'C15',''),
('ps-close',[(PS,'        self.tx.close();\n','')],'C15',''),
('ps-close-end',[(P,'''                sessions.remove(&session_id);
            }
        }

        // Subs''','''                sessions.remove(&session_id);

                if sessions.is_empty() {
                    break;
                }
            }
        }

        // Subs''')],'C15',''),
('R-ps-entryrm',[(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''        if let Entry::Occupied(sessions) = self.0.keys.entry(object_key.to_vec()) {
            sessions.get().remove(&session_id);

            if sessions.get().is_empty() {
                sessions.remove();
            }
        }

        unsubbed''')],'','C15'),
('ps-entryrm',[(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''        if let Entry::Occupied(sessions) = self.0.keys.entry(object_key.to_vec()) {
            sessions.get().remove(&session_id);

            if sessions.get().len() < 2 {
                sessions.remove();
            }
        }

        unsubbed''')],'C15',''),
('ps-removeif',[(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''        self.0.keys.remove_if(object_key, |_, sessions| sessions.remove(&session_id).is_some());

        unsubbed''')],'C15',''),
('ps-rem-if',[(P,'''            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
''','''            self.0.keys.remove_if(sub.key(), |_, sessions| sessions.remove(&session_id).is_some());
''')],'C15',''),
('R-ps-rem-if',[(P,'''            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
''','''            self.0.keys.remove_if(sub.key(), |_, sessions| {
                sessions.remove(&session_id);

                sessions.is_empty()
            });
''')],'','C15'),
('ps-prune',[(P,'''            sessions.remove(&session_id);
        }

        unsubbed''','''            sessions.remove(&session_id);

            if sessions.is_empty() {
                self.0.keys.remove(object_key);
            }
        }

        unsubbed''')],'C15',''),
('ps-prune2',[(P,'''            sessions.remove(&session_id);
        }

        unsubbed''','''            sessions.remove(&session_id);
        }
        if self.0.keys.get(object_key).map_or(false, |s| s.is_empty()) {
            self.0.keys.remove(object_key);
        }

        unsubbed''')],'C15',''),
# --- refactorings in pubsub
('R-ps-iflet',[(P,UNS,'''        if let Some(keys) = self.0.sessions.get(&session_id) {
            let unsubbed = keys.remove(object_key).is_some();

            if let Some(sessions) = self.0.keys.get(object_key) {
                sessions.remove(&session_id);
            }

            unsubbed
        } else {
            false
        }
''')],'','C15'),
('R-ps-keyfirst',[(P,'''        let unsubbed = keys.remove(object_key).is_some();

        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''
        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        keys.remove(object_key).is_some()''')],'','C15'),
('R-ps-only-if',[(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''        if unsubbed {
            if let Some(sessions) = self.0.keys.get(object_key) {
                sessions.remove(&session_id);
            }
        }

        unsubbed''')],'','C15'),
('R-ps-mut',[(P,'let keys = match self.0.sessions.get(&session_id) {','let keys = match self.0.sessions.get_mut(&session_id) {')],'','C15'),
('R-ps-removeif',[(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }
        self.0.keys.remove_if(object_key, |_, sessions| sessions.is_empty());

        unsubbed''')],'','C15'),
('R-ps-helper',[(P,'''            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
''','''            self.leave(sub.key(), session_id);
'''),(P,'''        if let Some(sessions) = self.0.keys.get(object_key) {
            sessions.remove(&session_id);
        }

        unsubbed''','''        self.leave(object_key, session_id);

        unsubbed'''),(P,'''    /// Unsubscribes a session from all''','''    fn leave(&self, key: &[u8], session_id: SessionId) {
        if let Some(sessions) = self.0.keys.get(key) {
            sessions.remove(&session_id);
        }
    }

    /// Unsubscribes a session from all''')],'','C15'),
('R-ps-foreach',[(P,'''        for sub in session.get().iter() {
            sub.value().close();

            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
        }
''','''        session.get().iter().for_each(|sub| {
            sub.value().close();

            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
        });
''')],'','C15'),
('R-ps-two',[(P,'''        for sub in session.get().iter() {
            sub.value().close();

            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
        }
''','''        for sub in session.get().iter() {
            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
        }

        for sub in session.get().iter() {
            sub.close();
        }
''')],'','C15'),
('R-ps-left',[(P,'''        !session.remove().is_empty()
''','''        let any = !session.get().is_empty();
        session.remove();
        any
''')],'','C15'),
('R-ps-left2',[(P,'''        !session.remove().is_empty()
''','''        let (_, subscriptions) = session.remove_entry();

        subscriptions.len() > 0
''')],'','C15'),
('R-ps-flag',[(P,'''        !session.remove().is_empty()
''','''        session.remove();

        any
'''),(P,'        for sub in session.get().iter() {','        let mut any = false;\n\n        for sub in session.get().iter() {\n            any = true;')],'','C15'),
('R-ps-getmut',[(P,'''        let session = match self.0.sessions.entry(session_id) {
            Entry::Occupied(session) => session,
            Entry::Vacant(_) => return false,
        };
''','''        let session = if let Entry::Occupied(session) = self.0.sessions.entry(session_id) {
            session
        } else {
            return false;
        };
''')],'','C15'),
('R-ps-drain',[(P,'''        for sub in session.get().iter() {
            sub.value().close();

            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
        }

        // Subscriptions ended one by one leave an empty entry behind.
        !session.remove().is_empty()
''','''        for sub in session.get().iter() {
            if let Some(sessions) = self.0.keys.get(sub.key()) {
                sessions.remove(&session_id);
            }
        }

        let subs = session.remove();
        let any = !subs.is_empty();

        for (_, sub) in subs {
            sub.close();
        }

        any
''')],'','C15'),
('R-ps-get',[(P,GET,'''        self.0
            .sessions
            .get(&session_id)
            .and_then(|session| session.get(object_key).map(|sub| Arc::downgrade(sub.value())))
''')],'','C15'),
('R-ps-get2',[(P,GET,'''        match self.0.sessions.get(&session_id) {
            Some(session) => match session.get(object_key) {
                Some(sub) => Some(Arc::downgrade(&sub)),
                None => None,
            },
            None => None,
        }
''')],'','C15'),
('R-ps-contains',[(P,SUBM,'''        if session.contains_key(&object_key) {
            return None;
        }

        let arc = Arc::new(Subscription::new());
        let subscription = Arc::downgrade(&arc);
        session.insert(object_key.clone(), arc);
''')],'','C15'),
('R-ps-orinsert',[(P,'''            .or_default()
            .insert(session_id);
''','''            .or_insert_with(DashSet::new)
            .insert(session_id);
''')],'','C15'),
('R-ps-sub-match',[(P,KINS,'''        match self.0.keys.entry(object_key) {
            Entry::Occupied(sessions) => {
                sessions.get().insert(session_id);
            }
            Entry::Vacant(v) => {
                let sessions = DashSet::new();
                sessions.insert(session_id);
                v.insert(sessions);
            }
        }

        Some(subscription)
''')],'','C15'),
('R-ps-close2',[(PS,'        self.tx.close();\n','        let _ = self.tx.close();\n')],'','C15'),
('R-ps-closerx',[(PS,'        self.tx.close();\n','        self.rx.close();\n')],'','C15'),
# --- sessions
('ss-load',[(S,ID,'let id = self.0.next_id.load(Ordering::SeqCst);\n        self.0.next_id.store(id + 1, Ordering::SeqCst);')],'C14',''),
('ss-len',[(S,ID,'let id = self.0.sessions.len() as u32;')],'C14',''),
('ss-zero',[(S,'fetch_add(1,','fetch_add(0,')],'C14',''),
('ss-twice',[(S,INC,INC+INC)],'C14',''),
('ss-none',[(S,INC,'')],'C14',''),
('ss-ended',[(S,'Metric::SessionsStarted','Metric::SessionsEnded')],'C14',''),
('ss-rm-always',[(S,RM,'''        self.0.metrics_writer.increment(Metric::SessionsEnded);

        self.0.sessions.remove(&id).is_some()
''')],'C14',''),
('ss-rm-contains',[(S,RM,'''        let there = self.0.sessions.contains_key(&id);

        if there {
            self.0.sessions.remove(&id);
            self.0.metrics_writer.increment(Metric::SessionsEnded);
        }

        there
''')],'C14',''),
('ss-rm-true',[(S,'\n        removed\n','\n        true\n')],'C14',''),
('ss-id2',[(SS,'Self { client_token, id }','Self { client_token, id: id + 1 }')],'C14',''),
('ss-tok',[(SS,'Self { client_token, id }','Self { client_token: [0; 32], id: { let _ = client_token; id } }')],'C14',''),
('ss-and',[(S,ID,'let id = self.0.next_id.fetch_add(1, Ordering::SeqCst) & 0xffff;')],'C14',''),
('ss-insert',[(S,ID,'let id = self.0.next_id.load(Ordering::SeqCst);\n        self.0.next_id.fetch_add(1, Ordering::SeqCst);')],'C14',''),
('ss-decr',[(S,RM,'''        let removed = self.0.sessions.remove(&id).is_some();

        if removed {
            self.0.next_id.fetch_sub(1, Ordering::SeqCst);
            self.0.metrics_writer.increment(Metric::SessionsEnded);
        }

        removed
''')],'C14',''),
('ss-start',[(S,'AtomicU32::new(0)','AtomicU32::new(1)')],'','C14'),
('R-ss-relaxed',[(S,'Ordering::SeqCst);','Ordering::Relaxed);')],'','C14'),
('R-ss-wrap',[(S,ID,'let id = self.0.next_id.fetch_add(1, Ordering::SeqCst).wrapping_add(1);')],'','C14'),
('R-ss-helper',[(S,ID,'let id = self.next();'),(S,'    pub fn remove(','''    fn next(&self) -> u32 {
        self.0.next_id.fetch_add(1, Ordering::SeqCst)
    }

    pub fn remove(''')],'','C14'),
('R-ss-iflet',[(S,RM,'''        if self.0.sessions.remove(&id).is_some() {
            self.0.metrics_writer.increment(Metric::SessionsEnded);

            return true;
        }

        false
''')],'','C14'),
('R-ss-match',[(S,RM,'''        match self.0.sessions.remove(&id) {
            Some(_) => {
                self.0.metrics_writer.increment(Metric::SessionsEnded);
                true
            }
            None => false,
        }
''')],'','C14'),
('R-ss-map',[(S,RM,'''        self.0
            .sessions
            .remove(&id)
            .map(|_| self.0.metrics_writer.increment(Metric::SessionsEnded))
            .is_some()
''')],'','C14'),
('R-ss-order',[(S,INC,''),(S,'        let value = match',INC+'        let value = match')],'','C14'),
('R-ss-late',[(S,'        let session = Session::new(client_token, id);\n',''),(S,'v.insert(session)','v.insert(Session { client_token, id })')],'','C14'),
('R-ss-panic',[(S,'                unreachable!();\n','                panic!("session {} exists", id);\n')],'','C14'),
('R-ss-orinsert',[(S,ADD,'''        let value = self.0.sessions.entry(id).or_insert(session);
''')],'C14',''),
('R-ss-orinsertw',[(S,ADD,'''        let value = self.0.sessions.entry(id).or_insert_with(|| session);
''')],'C14',''),
('R-ss-contains',[(S,'        let removed = self.0.sessions.remove(&id).is_some();\n','''        if !self.0.sessions.contains_key(&id) {
            return false;
        }

        let removed = self.0.sessions.remove(&id).is_some();
''')],'','C14'),
('ss-loop',[(S,ID,'''let mut id = self.0.next_id.fetch_add(1, Ordering::SeqCst);
        while self.0.sessions.contains_key(&id) {
            id = self.0.next_id.fetch_add(1, Ordering::SeqCst);
        }''')],'','C14'),
]
