pub mod alloc;
pub mod arena;
pub mod case;
pub mod conc;
pub mod crash;
pub mod elem;
pub mod exec;
pub mod fuzz;
pub mod gate;
pub mod heart;
pub mod refuse;
#[cfg(not(miri))]
pub mod long;
#[cfg(not(miri))]
pub mod many;
#[cfg(not(miri))]
pub mod endless;
#[cfg(not(miri))]
pub mod oom;
#[cfg(not(miri))]
pub mod resources;
pub mod rng;
#[cfg(not(miri))]
pub mod spawns;
#[cfg(not(miri))]
pub mod threads;
pub mod vg;

use std::collections::HashMap;

pub use elem::Api;

pub struct Args {
    pub mode: String,
    pub kv: HashMap<String, String>,
}
impl Args {
    pub fn parse() -> Args {
        let mut it = std::env::args().skip(1);
        let mode = it.next().unwrap_or_default();
        let mut kv = HashMap::new();
        while let Some(k) = it.next() {
            let v = it.next().unwrap_or_default();
            kv.insert(k.trim_start_matches("--").to_string(), v);
        }
        Args { mode, kv }
    }
    pub fn u64(&self, k: &str, d: u64) -> u64 {
        self.kv.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| panic!("bad --{} {}", k, v)))
    }
    pub fn str<'a>(&'a self, k: &str, d: &'a str) -> &'a str {
        self.kv.get(k).map_or(d, |v| v.as_str())
    }
    /// block sizes: "s=mc,kc,nc;d=...;..." (defaults otherwise)
    pub fn blk(&self) -> [case::Blk; 4] {
        let mut b = case::DEFAULT_BLK;
        for part in self.str("blk", "").split(';').filter(|p| !p.is_empty()) {
            let (t, v) = part.split_once('=').unwrap();
            let v: Vec<usize> = v.split(',').map(|x| x.parse().unwrap()).collect();
            let i = "sdcz".find(t).unwrap();
            b[i] = case::Blk { mc: v[0], kc: v[1], nc: v[2] };
        }
        b
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

pub fn run(api: Api) {
    crash::install();
    heart::init();
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut m) = exec::PANIC_MSG.lock() {
            *m = format!("{}", info).replace('\n', " ");
        }
        if alloc::IN_CALL.load(std::sync::atomic::Ordering::SeqCst) == 0 {
            eprintln!("harness panic: {}", info);
        }
    }));
    let args = Args::parse();
    match args.mode.as_str() {
        "noop" => {}
        #[cfg(not(miri))]
        "peaks" => resources::peaks(api, &args),
        #[cfg(not(miri))]
        "long" => long::run(api, &args),
        #[cfg(not(miri))]
        "many" => many::run(api, &args),
        #[cfg(not(miri))]
        "endless" => endless::run(api, &args),
        "dump" => fuzz::dump(api, &args),
        "fuzz" => fuzz::run(api, &args),
        "conc" => conc::run(api, &args),
        "refuse" => refuse::run(api, &args),
        #[cfg(not(miri))]
        "threads" => threads::run(api, &args),
        #[cfg(not(miri))]
        "resources" => resources::run(api, &args),
        #[cfg(not(miri))]
        "oom" => oom::run(api, &args),
        #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
        "gate" => gate::run(api, &args),
        m => {
            eprintln!("unknown mode {}", m);
            std::process::exit(2);
        }
    }
}
