//! Splitting the exploration over processes: a busy process forks while processors are free.
use std::time::{Duration, Instant};
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

pub struct Par {
    /// number of processes at work, shared by all processes of a check
    active: &'static AtomicI32,
    /// when the first violation was found (seconds since the epoch)
    found: &'static AtomicI32,
    pub max: i32,
    pub child: bool,
    children: Vec<i32>,
    last: Instant,
    pause: Duration,
}
fn now() -> i32 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs() as i32)
}
fn shared(fd: i32) -> (&'static AtomicI32, &'static AtomicI32) {
    // PROT_READ|PROT_WRITE, MAP_SHARED (|MAP_ANONYMOUS)
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, if fd < 0 { 0x21 } else { 1 }, fd, 0) };
    assert!(p as isize != -1, "mmap");
    unsafe { (&*(p as *const AtomicI32), &*(p as *const AtomicI32).add(1)) }
}
impl Par {
    pub fn new() -> Par {
        let (active, found) = shared(-1);
        active.fetch_add(1, SeqCst);
        Par { active, found, max: 1, child: false, children: vec![], last: Instant::now(), pause: Duration::from_millis(40) }
    }
    pub fn open(&mut self, f: &str) {
        use std::os::fd::IntoRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(f).expect("slots file");
        (self.active, self.found) = shared(f.into_raw_fd());
        self.active.fetch_add(1, SeqCst);
    }
    /// Remember that some process has a counterexample.
    pub fn violated(&self) {
        let _ = self.found.compare_exchange(0, now(), SeqCst, SeqCst);
    }
    /// Has there been a counterexample for that many seconds?
    pub fn enough(&self, grace: i32) -> bool {
        let f = self.found.load(SeqCst);
        f != 0 && now() - f > grace
    }
    /// Is there a free processor? Takes it.
    pub fn wanted(&self) -> bool {
        if self.max <= 1 || self.active.load(SeqCst) >= self.max || self.last.elapsed() < self.pause {
            return false;
        }
        if self.active.fetch_add(1, SeqCst) >= self.max {
            self.active.fetch_sub(1, SeqCst);
            return false;
        }
        true
    }
    /// true in the new process
    pub fn fork(&mut self) -> bool {
        let p = unsafe { fork() };
        if p < 0 {
            eprintln!("zsym: fork failed");
            unsafe { _exit(70) };
        }
        self.last = Instant::now();
        if p == 0 {
            self.child = true;
            self.children.clear();
            return true;
        }
        self.children.push(p);
        false
    }
    /// Wait for the processes started from here and combine their exit codes.
    pub fn finish(&mut self, mut code: i32) -> i32 {
        self.active.fetch_sub(1, SeqCst);
        for &p in &self.children {
            let mut st = 0;
            if unsafe { waitpid(p, &mut st, 0) } != p {
                code = 70;
            }
            let c = if st & 0x7f != 0 { if st & 0x7f == 9 { 71 } else { 70 } } else { (st >> 8) & 0xff };
            code = match (code, c) {
                (70, _) | (_, 70) => 70,
                (71, _) | (_, 71) => 71,
                (_, c) if c > 2 => 70,
                (1, _) | (_, 1) => 1,
                (a, b) => a.max(b),
            };
        }
        if self.child {
            unsafe { _exit(code) };
        }
        code
    }
}
