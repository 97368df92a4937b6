// Job loop shared by the drivers.  One line per job: a command and numbers; the answer is "= value" or "! panic message".
#[cfg(symbolic)]
use ficus_backend::sym::Sym;
#[cfg(symbolic)]
pub type El = Sym;
#[cfg(not(symbolic))]
pub type El = u64;
#[cfg(names)]
pub type Str = ficus_backend::sym::Name;
#[cfg(not(names))]
pub type Str = String;

/// names of events are written n<element>; a symbolic one has no text of its own
#[cfg(names)]
pub fn name_of(e: El) -> Str { Str::Sym(e) }
#[cfg(all(symbolic, not(names)))]
pub fn name_of(_: El) -> Str { panic!("names are not symbolic") }
#[cfg(not(symbolic))]
pub fn name_of(e: El) -> Str { format!("n{:020}", e) }

/// the keys of the standard hash maps: fixed per job, so that a run can be repeated; the job says which
static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SEED.load(std::sync::atomic::Ordering::SeqCst);
    for i in 0..len {
        *buf.add(i) = (s.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(8 * (i as u32 % 8)) & 255) as u8;
    }
    len as isize
}

pub struct Job {
    pub cmd: String,
    args: std::vec::IntoIter<String>,
}
#[allow(dead_code)]
impl Job {
    pub fn word(&mut self) -> String { self.args.next().unwrap() }
    pub fn n(&mut self) -> usize { self.args.next().unwrap().parse().unwrap() }
    pub fn el(&mut self) -> El { self.args.next().unwrap().parse().unwrap() }
    pub fn els(&mut self) -> Vec<El> { let n = self.n(); (0..n).map(|_| self.el()).collect() }
    pub fn name(&mut self) -> Str { name_of(self.el()) }
    pub fn words(&mut self) -> Vec<Vec<El>> { let n = self.n(); (0..n).map(|_| self.els()).collect() }
    pub fn names(&mut self) -> Vec<String> { let n = self.n(); (0..n).map(|_| self.word()).collect() }
    pub fn nss(&mut self) -> Vec<Vec<String>> { let n = self.n(); (0..n).map(|_| self.names()).collect() }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    loop {
        let mut line = String::new();
        if std::io::stdin().read_line(&mut line).unwrap() == 0 {
            return;
        }
        let mut t = line.split_whitespace().map(|x| x.to_owned()).collect::<Vec<String>>().into_iter();
        let cmd = t.next().unwrap();
        SEED.store(t.next().unwrap().parse().unwrap(), std::sync::atomic::Ordering::SeqCst);
        let job = Job { cmd, args: t };
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(job)).unwrap();
        match h.join() {
            Ok(s) => println!("= {}", s.replace('\n', " ")),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("! {}", m.replace('\n', " "))
            }
        }
    }
}
