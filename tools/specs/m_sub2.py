P='engine/src/pubsub/manager.rs'
M=[('close-existing',[(P,'            Entry::Occupied(_) => return None,','            Entry::Occupied(o) => {\n                o.get().close();\n                return None;\n            }')],'C15',''),
('close-new',[(P,'        let subscription = match session','        let unused = Arc::new(Subscription::new());\n        unused.close();\n\n        let subscription = match session')],'','C15'),
('get-closes',[(P,'        Some(Arc::downgrade(sub.value()))','        sub.value().close();\n\n        Some(Arc::downgrade(sub.value()))')],'C15',''),
('rewrite-same',[(P,'            Entry::Occupied(_) => return None,','            Entry::Occupied(mut o) => {\n                let same = Arc::clone(o.get());\n                o.insert(same);\n                return None;\n            }')],'','C15'),
('insert-first',[(P,'''        let subscription = match session.entry(object_key.clone()) {
            Entry::Occupied(_) => return None,
            Entry::Vacant(v) => {
                let subscription = Arc::new(Subscription::new());
                let weak = Arc::downgrade(&subscription);

                v.insert(subscription);

                weak
            }
        };''','''        let subscription = Arc::new(Subscription::new());
        let weak = Arc::downgrade(&subscription);
        if session.insert(object_key.clone(), subscription).is_some() {
            return None;
        }
        let subscription = weak;''')],'C15',''),
]
