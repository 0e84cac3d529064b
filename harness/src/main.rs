#![allow(dead_code)]
mod c05;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c16;
mod c18;
mod checks;
mod conc;
mod cyc;
mod gencase;
mod huge;
mod lab;
mod model;
mod mt;
mod prog;
mod real;
mod seq;
mod val;

#[global_allocator]
static ALLOC: cyc::Counting = cyc::Counting;

use checks::Res;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

static RSEED: AtomicU64 = AtomicU64::new(1);
/// std seeds its hash maps from here: hash order is part of the replayable
/// input, one order per case
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _f: u32) -> isize {
  let mut s = RSEED.load(Relaxed);
  for i in 0..len {
    s = vrt::rng::mix(s, i as u64);
    unsafe { *buf.add(i) = s as u8 }
  }
  len as isize
}

pub fn one(prop: &str, idx: u64, seed: u64) -> Res {
  RSEED.store(vrt::rng::mix(seed, idx) | 1, Relaxed);
  let p = prop.to_string();
  let h = std::thread::Builder::new()
    .stack_size(8 << 20)
    .spawn(move || {
      let r = dispatch(&p, idx, seed);
      vrt::coro::flush_pool();
      r
    })
    .unwrap();
  match h.join() {
    Ok(r) => r,
    Err(_) => {
      eprintln!("harness: internal panic in {} case {}", prop, idx);
      std::process::exit(3)
    }
  }
}

fn dispatch(prop: &str, idx: u64, seed: u64) -> Res {
  let mut h = vrt::rng::mix(seed, idx);
  for b in prop.bytes() {
    h = vrt::rng::mix(h, b as u64);
  }
  let r = &mut vrt::rng::Rng::new(h);
  match concurrent(prop, r) {
    Some(mut sc) => {
      let res = conc::explore(r, &mut sc, prop == "C07mix");
      finish(res, idx)
    }
    None => checks::sequential(prop, idx, seed),
  }
}

fn finish(mut res: Res, idx: u64) -> Res {
  if idx % 7 != 0 {
    res.sample = None;
  }
  res
}

/// the workloads C07 borrows: there only stuck executions count
const MIX: [&str; 14] = [
  "C05sub", "C08", "C09", "C10", "C11", "C12", "C13", "C13mt", "C14mt", "C15",
  "C16",
  "C18", "C19", "C06mt",
];

fn concurrent(prop: &str, r: &mut vrt::rng::Rng) -> Option<conc::Scen> {
  Some(match prop {
    "C07mix" => {
      let p = *r.pick(&MIX);
      return concurrent(p, r);
    }
    "C05sub" => c05::scenario(r),
    "C08" => c08::scenario(r),
    "C09" => c09::scenario(r),
    "C10" => c10::scenario(r),
    "C11" => c11::scenario(r),
    "C14mt" => c14::scenario(r),
    "C16" => c16::scenario(r),
    "C15" => c16::threads(r),
    "C18" => c18::scenario(r),
    "C13" => c13::sequential(r),
    "C13mt" => c13::concurrent(r),
    "C12" | "C10mt" => c12::scenario(prop, r),
    "C05mt" | "C06mt" | "C07mt" | "C15mt" | "C17mt" | "C19" => {
      mt::scenario(&prop[..3], r)
    }
    "C06cyc" | "C15cyc" | "C17cyc" => cyc::scenario(&prop[..3], r),
    p if p.ends_with("huge") => huge::scenario(&prop[..3], r),
    _ => return None,
  })
}

fn cpu_ms() -> u64 {
  #[repr(C)]
  struct Ts(i64, i64);
  extern "C" {
    fn clock_gettime(c: i32, t: *mut Ts) -> i32;
  }
  let mut t = Ts(0, 0);
  unsafe { clock_gettime(2, &mut t) };
  (t.0 * 1000 + t.1 / 1_000_000) as u64
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static CUR_CPU: AtomicU64 = AtomicU64::new(0);

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o += "\\\"",
      '\\' => o += "\\\\",
      '\n' => o += "\\n",
      c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn main() {
  vrt::rt::install_panic_hook();
  let a: Vec<String> = std::env::args().collect();
  let prop = a[2].as_str();
  match a[1].as_str() {
    // run PROP SEED FROM TO STRIDE OFFSET SECS MAXFAIL OUT
    "run" => {
      let n = |i: usize| a[i].parse::<u64>().unwrap();
      let (seed, from, to, stride, off, secs, maxfail) =
        (n(3), n(4), n(5), n(6), n(7), n(8), n(9));
      run(prop, seed, from, to, stride, off, secs, maxfail, &a[10]);
    }
    "replay" => {
      let seed: u64 = a[3].parse().unwrap();
      let idx: u64 = a[4].parse().unwrap();
      let r = one(prop, idx, seed);
      match r.fail {
        Some(f) => {
          println!("FAIL property={} case={}\n{}", prop, idx, f);
          std::process::exit(1);
        }
        None => println!(
          "ok property={} case={} evals={} {}",
          prop,
          idx,
          r.evals,
          r.sample.unwrap_or_default()
        ),
      }
    }
    "size" => println!("{}", gencase::enum_size(prop)),
    _ => panic!("usage"),
  }
}

fn run(
  prop: &str,
  seed: u64,
  from: u64,
  to: u64,
  stride: u64,
  off: u64,
  secs: u64,
  maxfail: u64,
  out: &str,
) {
  let t0 = Instant::now();
  let mut fails: Vec<(u64, String)> = Vec::new();
  let mut seen: HashSet<u64> = HashSet::new();
  let mut samples = Vec::new();
  let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
  let (mut cases, mut evals, mut events, mut steps, mut skipped, mut sw) =
    (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
  let progress = format!("{}.cur", out);
  let pf = std::fs::OpenOptions::new()
    .create(true)
    .write(true)
    .truncate(true)
    .open(&progress)
    .unwrap();
  {
    // a case that burns a minute of CPU without passing a scheduling point
    let out = out.to_string();
    let prop = prop.to_string();
    std::thread::spawn(move || loop {
      std::thread::sleep(std::time::Duration::from_millis(500));
      let (c, s) = (CUR.load(Relaxed), CUR_CPU.load(Relaxed));
      if c != u64::MAX && cpu_ms().saturating_sub(s) > 60_000 {
        let f = format!(
          "{{\"hang\":{},\"prop\":{}}}",
          c,
          esc(&prop)
        );
        let _ = std::fs::write(format!("{}.hang", out), f);
        std::process::exit(4);
      }
    });
  }
  let mut complete = true;
  let mut i = from + off;
  while i < to {
    if t0.elapsed().as_secs() >= secs {
      complete = false;
      break;
    }
    use std::os::unix::fs::FileExt;
    let _ = pf.write_at(&i.to_le_bytes(), 0);
    CUR_CPU.store(cpu_ms(), Relaxed);
    CUR.store(i, Relaxed);
    let r = one(prop, i, seed);
    CUR.store(u64::MAX, Relaxed);
    cases += 1;
    evals += r.evals;
    events += r.events;
    steps += r.steps;
    skipped += r.skipped;
    sw += r.switches;
    for k in r.kinds {
      *kinds.entry(k).or_insert(0) += 1;
    }
    if seen.len() < 1_000_000 {
      seen.extend(r.seen);
    }
    if samples.len() < 6 {
      if let Some(s) = r.sample {
        if s.len() < 1500 {
          samples.push(s);
        }
      }
    }
    if let Some(f) = r.fail {
      fails.push((i, f));
      if fails.len() as u64 >= maxfail {
        complete = false;
        break;
      }
    }
    i += stride;
  }
  let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
  let f: Vec<String> = fails
    .iter()
    .map(|(i, f)| format!("[{},{}]", i, esc(f)))
    .collect();
  let s: Vec<String> = samples.iter().map(|s| esc(s)).collect();
  let k: Vec<String> =
    kinds.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
  write!(
    o,
    "{{\"cases\":{},\"evals\":{},\"events\":{},\"steps\":{},\"skipped\":{},\"switches\":{},\"complete\":{},\"fails\":[{}],\"samples\":[{}],\"kinds\":{{{}}}}}",
    cases, evals, events, steps, skipped, sw, complete,
    f.join(","), s.join(","), k.join(",")
  )
  .unwrap();
  o.flush().unwrap();
  let mut h = std::io::BufWriter::new(
    std::fs::File::create(format!("{}.seen", out)).unwrap(),
  );
  for x in seen {
    h.write_all(&x.to_le_bytes()).unwrap();
  }
  h.flush().unwrap();
  println!(
    "{} cases={} evals={} skipped={} fails={} {:.1}s",
    prop,
    cases,
    evals,
    skipped,
    fails.len(),
    t0.elapsed().as_secs_f64()
  );
}
