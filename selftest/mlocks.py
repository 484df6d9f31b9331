CP="src/service/client/pending.rs"; P="src/service/pending.rs"; K="src/service/client.rs"; L="src/service/layers.rs"; S="src/service.rs"; T="src/transport.rs"
CAN='''        if let Some(handle) = self.0.get(id) {
            handle.abort();
            info!("successfully cancelled request with ID: {}", id);
        } else {'''
ALL='''        self.0.retain(|_, handle| {
            handle.abort();
            false
        });'''
INS='''                    if let Err(r) = tx.send(r) {
                        warn!("received response to abandoned request ID: {}", r.id());
                    }'''
VAC='''            let (handler_fut, abort_handle) = future::abortable(fut);
            entry.insert(abort_handle);
'''
USE="use dashmap::{mapref::entry::Entry, DashMap};"
WAIT='''        match self.0.entry(id) {
            Entry::Vacant(entry) => {
                entry.insert(vec![tx]);
            }
            Entry::Occupied(mut entry) => {
                let txs = entry.get_mut();
                txs.reserve(1); // We assume concurrent waits are rare, so reserve one by one.
                txs.push(tx);
            }
        }
'''
def cancel(s): return [(P,CAN,s)]
MAPS=[(P,USE,"use std::collections::HashMap;\nuse std::sync::Mutex;"),(P,"pub struct Pending(Arc<DashMap<Id, future::AbortHandle>>);","pub struct Pending(Arc<Mutex<HashMap<Id, future::AbortHandle>>>);"),
 (P,"Pending(Arc::new(DashMap::new()))","Pending(Arc::new(Mutex::new(HashMap::new())))"),
 (P,"            .entries(self.0.iter().map(|entry| entry.key().clone()))","            .entries(self.0.lock().unwrap().keys())"),
 (P,"                requests.remove(&id);","                requests.lock().unwrap().remove(&id);"),
 (P,ALL,'''        self.0.lock().unwrap().retain(|_, handle| {
            handle.abort();
            false
        });'''),
 (P,"        if let Entry::Vacant(entry) = self.0.entry(id.clone()) {\n","        let mut map = self.0.lock().unwrap();\n        if !map.contains_key(&id) {\n"),
 (P,"            entry.insert(abort_handle);\n","            map.insert(id.clone(), abort_handle);\n            drop(map);\n")]
M=[
("cancel-remove","P24",1,cancel(CAN.replace('            info!("succ','            self.0.remove(id);\n            info!("succ'))),
("cancel-remove-helper","P24",1,cancel(CAN.replace('            info!("succ','            self.forget(id);\n            info!("succ'))+[(P,"    /// Cancels all pending request","    fn forget(&self, id: &Id) {\n        self.0.remove(id);\n    }\n\n    /// Cancels all pending request")]),
("cancel-all-loop","P24",1,[(P,ALL,"        for entry in self.0.iter() {\n            entry.value().abort();\n            self.0.remove(entry.key());\n        }")]),
("cancel-all-for-each","P24",1,[(P,ALL,"        self.0.iter().for_each(|entry| {\n            entry.value().abort();\n            self.0.remove(entry.key());\n        });")]),
("cancel-all-closure","P24",1,[(P,ALL,"        self.0.retain(|id, handle| {\n            handle.abort();\n            !self.0.contains_key(id)\n        });")]),
("cancel-all-debug","P24",1,[(P,ALL,ALL.replace("            false",'            debug!("cancelling, of {:?}", self);\n            false'))]),
("insert-abandoned","P24",1,[(CP,INS,INS.replace("                        warn!","                        self.0.remove(r.id());\n                        warn!")),(CP,"_ => entry.get_mut().remove(0),","_ => entry.get_mut().remove(0),")]),
("insert-len-log","P24",1,[(CP,'Entry::Vacant(_) => warn!("received response with unknown request ID: {}", id),','Entry::Vacant(_) => warn!("received response with unknown request ID: {} ({} pending)", id, self.0.len()),')]),
("insert-debug-log","P24",1,[(CP,'Entry::Vacant(_) => warn!("received response with unknown request ID: {}", id),','Entry::Vacant(_) => warn!("received response with unknown request ID: {}, pending: {:?}", id, self),')]),
("execute-len","P24",1,[(P,VAC,VAC.replace("            entry.insert",'            if self.0.len() > 100 {\n                debug!("many requests are pending");\n            }\n            entry.insert'))]),
("execute-duplicate-log","P24",1,[(P,"            Either::Right(async { Ok",'            debug!("duplicate of one of {}", self.0.len());\n            Either::Right(async { Ok')]),
("execute-polls","P24",1,[(P,VAC,'''            let mut fut = Box::pin(fut);
            let first = futures::FutureExt::now_or_never(&mut fut);
            let fut = async move {
                match first {
                    Some(v) => v,
                    None => fut.await,
                }
            };
'''+VAC)]),
("cancel-sleeps","P24",1,cancel(CAN.replace('            info!("succ','            std::thread::sleep(std::time::Duration::from_millis(1));\n            info!("succ'))),
("cancel-forgets","P24",1,cancel(CAN.replace('            info!("succ','            std::mem::forget(handle);\n            info!("succ'))),
("mutex-nested","P24",1,MAPS+cancel('''        if let Some(handle) = self.0.lock().unwrap().get(id) {
            handle.abort();
            if self.0.lock().unwrap().len() == 1 { debug!("that was the last one"); }
            info!("successfully cancelled request with ID: {}", id);
        } else {''')),
("wait-logs","P24",1,[(CP,"                txs.push(tx);\n",'                txs.push(tx);\n                warn!("the request ID is waited for twice, of {}", self.0.len());\n')]),
("wait-kept-entry","P24",1,[(CP,WAIT,'''        let mut txs = self.0.entry(id.clone()).or_default();
        txs.push(tx);
        if txs.len() > 1 && self.0.get(&id).is_some() {
            warn!("waited for twice");
        }
''')]),
# Refactorings.
("r-mutex","P24",0,MAPS+cancel(CAN.replace("self.0.get(id)","self.0.lock().unwrap().get(id)"))),
("r-match","P24",0,[(P,"if let Entry::Vacant(entry) = self.0.entry(id.clone()) {","match self.0.entry(id.clone()) { Entry::Vacant(entry) => {"),(P,"        } else {\n            Either::Right(async { Ok(Some(Response::from_error(id, Error::invalid_request()))) })\n        }","        } Entry::Occupied(_) => {\n            Either::Right(async { Ok(Some(Response::from_error(id, Error::invalid_request()))) })\n        } }")]),
("r-handle-clone","P24",0,cancel('''        let handle = self.0.get(id).map(|h| h.clone());
        if let Some(handle) = handle {
            handle.abort();
            let _ = self.0.len();
            info!("successfully cancelled request with ID: {}", id);
        } else {''')),
("r-drop-first","P24",0,cancel(CAN.replace('            info!("succ','            drop(handle);\n            let _ = self.0.len();\n            info!("succ'))),
("r-else-access","P24",0,[(P,'            debug!(\n                "client asked','            let _ = self.0.len();\n            debug!(\n                "client asked')]),
("r-keys-first","P24",0,[(P,ALL,"        let ids: Vec<Id> = self.0.iter().map(|e| e.key().clone()).collect();\n        for id in ids {\n            if let Some((_, handle)) = self.0.remove(&id) {\n                handle.abort();\n            }\n        }")]),
("r-insert-after","P24",0,[(CP,'''                Entry::Occupied(mut entry) => {
                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };

'''+INS,'''                Entry::Occupied(mut entry) => {
                    let tx = if entry.get().len() > 1 {
                        let tx = entry.get_mut().remove(0);
                        drop(entry);
                        tx
                    } else {
                        entry.remove().remove(0)
                    };
                    let _ = self.0.len();

'''+INS)]),
("r-get-mut","P24",0,[(CP,WAIT,'''        if let Some(mut txs) = self.0.get_mut(&id) {
            txs.push(tx);
        } else {
            self.0.insert(id, vec![tx]);
        }
''')]),
("r-or-default","P24",0,[(CP,WAIT,"        self.0.entry(id).or_default().push(tx);\n        let _ = self.0.len();\n")]),
("r-or-default-scope","P24",0,[(CP,WAIT,"        {\n            let mut txs = self.0.entry(id).or_insert_with(Vec::new);\n            txs.push(tx);\n        }\n        let _ = self.0.len();\n")]),
("r-helper","P24",0,cancel(CAN.replace("self.0.get(id)","self.find(id)"))+[(P,"    /// Cancels all pending request","    fn find(&self, id: &Id) -> Option<dashmap::mapref::one::Ref<'_, Id, future::AbortHandle>> {\n        self.0.get(id)\n    }\n\n    /// Cancels all pending request")]),
("r-count-before","P24",0,[(P,"        if let Entry::Vacant(entry)",'        debug!("{} requests are pending", self.0.len());\n        if let Entry::Vacant(entry)')]),
("r-contains","P24",0,[(P,"        if let Entry::Vacant(entry) = self.0.entry(id.clone()) {","        if !self.0.contains_key(&id) {"),(P,"            entry.insert(abort_handle);","            self.0.insert(id.clone(), abort_handle);"),(P,USE,"use dashmap::DashMap;")]),
]
