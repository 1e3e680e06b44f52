use crate::expr::E;
use crate::fs::{Fs, Proc};
use crate::ir::Func;
use crate::mem::Mem;
use crate::val::V;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub sp: u64,
    /// arguments beyond the parameters
    pub va: u64,
    /// where the caller wants the result
    pub dst: u32,
    /// invoke: edge to take on return
    pub normal: Option<u32>,
    /// what to do when this frame returns (see exec::ret)
    pub tag: Tag,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tag { Plain, ThreadMain, TlsDtor, ProcMain, HarnessMain }

#[derive(Clone, Debug, PartialEq)]
pub enum Wait {
    Run,
    /// address, bitset, deadline
    Futex(u64, u32, Option<u64>),
    Sleep(u64),
    Join(usize),
    /// readable pipe / child exit etc: re-run the call whenever anything changes
    Retry,
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub id: usize,
    pub frames: Vec<Frame>,
    pub wait: Wait,
    /// result of the blocking call, once it completes
    pub wake: Option<i64>,
    pub stack: u64,
    pub sp: u64,
    pub tls: HashMap<u32, u64>,
    pub keys: BTreeMap<u64, u64>,
    pub dtors: Vec<(u64, u64)>,
    pub retval: u64,
    pub errno: u64,
    pub detached: bool,
}

#[derive(Clone)]
pub struct Saved {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub proc_: Proc,
    pub crash: Option<V>,
    pub fault: Option<V>,
    pub sched: i64,
    pub ops: u64,
    pub torn: u64,
    pub during: Option<Rc<During>>,
    pub points: u64,
    /// the interrupted call is made again, rather than finished
    pub again: bool,
}
/// Another process that runs in the midst of this one.
pub struct During { pub k: V, pub f: u32, pub data: V, pub mem: Mem, pub threads: Vec<Thread>, pub cur: usize, pub proc_: Proc }

pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u128>>,
    pub fs: Fs,
    pub proc_: Proc,
    pub saved: Vec<Saved>,
    pub clock: u64,
    pub realtime: V,
    pub emits: Vec<V>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub inputs: Vec<(String, V, u32)>,
    pub counts: BTreeMap<String, u32>,
    pub log: Vec<String>,
    pub steps: u64,
    /// crash before the mutating operation with this number
    pub crash: Option<V>,
    pub fault: Option<V>,
    pub ops: u64,
    /// preemptions left (-1: run to block, in order)
    pub sched: i64,
    pub hashes: Vec<(Rc<Vec<E>>, Rc<Vec<E>>)>,
    pub named: Vec<(usize, Rc<crate::mem::Obj>, Vec<u8>)>,
    pub hashes_c: Vec<(usize, Rc<Vec<u8>>, Vec<u8>)>,
    pub flags: u64,
    pub depth: u32,
    pub last_ops: u64,
    pub last_msg: String,
    /// bytes of the interrupted write that reach the file (numerator of 2)
    pub torn: u64,
    pub sched_done: Option<u64>,
    /// timers fired since another thread last ran
    pub idle: u32,
    pub during: Option<Rc<During>>,
    /// accesses to the file system so far, for `during`
    pub points: u64,
    pub gdata: BTreeMap<u64, u64>,
}

impl Clone for State {
    fn clone(&self) -> Self {
        State {
            mem: self.mem.clone(), threads: self.threads.clone(), cur: self.cur, pc: self.pc.clone(), model: self.model.clone(),
            fs: self.fs.clone(), proc_: self.proc_.clone(), saved: self.saved.clone(), clock: self.clock, realtime: self.realtime.clone(),
            emits: self.emits.clone(), out: self.out.clone(), err: self.err.clone(), inputs: self.inputs.clone(), counts: self.counts.clone(),
            log: self.log.clone(), steps: self.steps, crash: self.crash.clone(), fault: self.fault.clone(), ops: self.ops, sched: self.sched,
            hashes: self.hashes.clone(), named: self.named.clone(), hashes_c: self.hashes_c.clone(), flags: self.flags, depth: self.depth, last_ops: self.last_ops, last_msg: self.last_msg.clone(),
            torn: self.torn, sched_done: self.sched_done, idle: self.idle, during: self.during.clone(), points: self.points, gdata: self.gdata.clone(),
        }
    }
}
impl State {
    /// some process has it open
    pub fn is_open(&self, i: u64) -> bool {
        let has = |p: &Proc| p.ofds.values().any(|o| matches!(o.what, crate::fs::What::Ino(j) if j == i));
        has(&self.proc_) || self.saved.iter().any(|s| has(&s.proc_)) || self.during.as_ref().is_some_and(|d| has(&d.proc_))
    }
}
