"""Helper to write planted bugs: apply edits in /tmp/plant, store demo and meta, confirm with plant.sh."""
import json, os, subprocess, sys
P='/tmp/plant/'
PRE='''#![allow(unused)]
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as Failure, Job as Raw, Query, memory::InMemoryBackend};
use rexecutor::job::{JobStatus, JobId, ErrorType, query::Where, uniqueness_criteria::UniquenessCriteria};
use rexecutor::prelude::*;
use serde_json::json;
use std::{sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}}, time::Duration};

fn raw(executor: &str, scheduled_at: DateTime<Utc>, priority: u16) -> EnqueuableJob<'static> {
    EnqueuableJob {
        executor: executor.into(),
        data: json!("data"),
        metadata: json!(null),
        max_attempts: 3,
        scheduled_at,
        tags: vec![],
        priority,
        uniqueness_criteria: None,
    }
}
'''
def plant(id, prop, needs, breaks, edits, demo, pre=True):
    d=f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    subprocess.check_call(['git','-C',P,'checkout','-q','--','.'])
    for f,old,new in edits:
        s=open(P+f).read()
        if s.count(old)!=1: print(id, 'EDIT', f, s.count(old)); return
        open(P+f,'w').write(s.replace(old,new))
    open(d+'/demo.rs','w').write((PRE if pre else '')+demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+'/meta.json','w'))
    print('==', id, flush=True)
    subprocess.call(['bash','/verif/tools/plant.sh',id])
