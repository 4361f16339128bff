//! C24: a running application (the real event loop, in a terminal of its own) handles every message once and in order,
//! and shows on the screen what it has handled.
use crate::src::Src;
use std::fs::File;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::fs::OpenOptionsExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use textual::{App, Canvas, CommandPaletteEvent, EventContext, Input, IntervalHandle, KeyCode, MessageEnvelope, MountContext, Region, Size, Static, Switch, Widget};
use textual::tree::WidgetTree;

unsafe extern "C" {
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut std::ffi::c_char, len: usize) -> i32;
    fn ioctl(fd: i32, req: u64, ...) -> i32;
    fn setsid() -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
}

/// Every other sender sends under no name of its own, through the context it is given.
fn nameless(i: usize) -> bool {
    i % 2 == 1
}
/// Who sends: posts on start, a thread, one-shot timers, an interval, a message sent on when its predecessor is handled.
#[derive(Clone, Debug, PartialEq)]
enum From {
    Post(usize),
    Thread(usize, u64),
    Timers(Vec<u64>),
    Interval(usize, u64),
    Chain(usize),
}
#[derive(Clone, Debug)]
struct Plan {
    from: Vec<From>,
    /// keys go to a switch (which answers with a message) or to an input (which does not)
    switch: bool,
    /// what is typed: a key, a click, a new size of the terminal
    typed: Vec<u8>,
}
impl Plan {
    fn expected(&self, i: usize) -> usize {
        match &self.from[i] {
            From::Post(n) | From::Thread(n, _) | From::Interval(n, _) | From::Chain(n) => *n,
            From::Timers(d) => d.len(),
        }
    }
    fn write(&self) -> String {
        let mut v = vec![(self.switch as u8).to_string(), self.typed.iter().map(|b| *b as char).collect::<String>()];
        for f in &self.from {
            v.push(match f {
                From::Post(n) => format!("p {n}"),
                From::Thread(n, g) => format!("t {n} {g}"),
                From::Timers(d) => format!("o {}", d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
                From::Interval(n, p) => format!("i {n} {p}"),
                From::Chain(n) => format!("c {n}"),
            });
        }
        v.join(";")
    }
    fn read(s: &str) -> Plan {
        let mut it = s.split(';');
        let switch = it.next() == Some("1");
        let typed = it.next().unwrap_or("").bytes().collect();
        let from = it
            .map(|f| {
                let mut w = f.split_whitespace();
                let k = w.next().unwrap();
                let n: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
                match k {
                    "p" => From::Post(n[0] as usize),
                    "t" => From::Thread(n[0] as usize, n[1]),
                    "o" => From::Timers(n),
                    "i" => From::Interval(n[0] as usize, n[1]),
                    _ => From::Chain(n[0] as usize),
                }
            })
            .collect();
        Plan { from, switch, typed }
    }
}

// ------------------------------------------------------------------ the application
#[derive(Clone, Debug)]
enum Msg {
    Numbered(usize, usize),
    Switched(bool),
}
struct Probe {
    plan: Plan,
    log: Vec<String>,
    hash: u64,
    handles: Vec<Option<IntervalHandle>>,
}
fn hash(h: u64, s: &str) -> u64 {
    s.bytes().fold(h ^ 0x9E37, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) & 0xFFFFFF
}
fn shown(n: usize, h: u64) -> String {
    format!("N={n} H={h:06x} ;")
}
impl Probe {
    fn note(&mut self, t: String, ctx: &mut EventContext<Msg>) {
        self.hash = hash(self.hash, &t);
        self.log.push(t.clone());
        let s = shown(self.log.len(), self.hash);
        ctx.query_one_as::<Static<Msg>, _, _>("#out", |w| w.update(s));
        eprintln!("{t}");
    }
}
impl App for Probe {
    type Message = Msg;
    const CSS: &'static str = "#out { height: 1; width: 50; } Input { height: 3; width: 50; } Switch { height: 3; width: 20; }";
    fn compose(&self) -> Vec<Box<dyn Widget<Msg>>> {
        let mut v: Vec<Box<dyn Widget<Msg>>> = vec![];
        if self.plan.switch {
            v.push(Box::new(Switch::new(false, Msg::Switched).with_id("sw")));
        } else {
            v.push(Box::new(Input::new().with_id("sw")));
        }
        v.push(Box::new(Static::new(shown(0, 7)).with_id("out")));
        v
    }
    fn on_mount(&mut self, ctx: &mut MountContext<Msg>) {
        for (i, f) in self.plan.from.clone().into_iter().enumerate() {
            let mut handle = None;
            let bare = nameless(i);
            let app = ctx.app_context().clone().with_sender_info(Some(&format!("id{i}")), &format!("type{i}"));
            match f {
                From::Post(n) => (0..n).for_each(|k| if bare { ctx.post(Msg::Numbered(i, k)) } else { app.post(Msg::Numbered(i, k)) }),
                From::Thread(n, gap) => {
                    let sender = if bare { ctx.sender() } else { app.sender() };
                    std::thread::spawn(move || {
                        for k in 0..n {
                            if k % 2 == 0 && !bare {
                                app.post(Msg::Numbered(i, k));
                            } else {
                                let id = format!("id{i}");
                                let _ = sender.send(MessageEnvelope::new(Msg::Numbered(i, k), if bare { None } else { Some(&id) }, &format!("type{i}")));
                            }
                            if gap > 0 {
                                std::thread::sleep(Duration::from_micros(gap));
                            }
                        }
                    });
                }
                From::Timers(d) => d.iter().enumerate().for_each(|(k, ms)| {
                    let (d, m) = (Duration::from_millis(*ms), Msg::Numbered(i, k));
                    if bare { ctx.set_timer(d, m) } else { app.set_timer(d, m) }
                }),
                From::Interval(_, p) => {
                    let k = AtomicUsize::new(0);
                    let make = move || Msg::Numbered(i, k.fetch_add(1, Ordering::SeqCst));
                    let p = Duration::from_millis(p);
                    handle = Some(if bare { ctx.set_interval(p, make) } else { app.set_interval(p, make) });
                }
                From::Chain(n) => {
                    if n > 0 {
                        app.post(Msg::Numbered(i, 0));
                    }
                }
            }
            self.handles.push(handle);
        }
    }
    fn handle_message(&mut self, envelope: MessageEnvelope<Msg>, ctx: &mut EventContext<Msg>) {
        let who = format!("{} {}", envelope.sender_id.clone().unwrap_or_default(), envelope.sender_type);
        let t = match envelope.message {
            Msg::Numbered(i, k) => {
                match self.plan.from[i] {
                    From::Chain(n) if k + 1 < n => {
                        let m = Msg::Numbered(i, k + 1);
                        let app = ctx.app_context().clone().with_sender_info(Some(&format!("id{i}")), &format!("type{i}"));
                        match (nameless(i), k % 3) {
                            (false, 0) => app.post(m),
                            (false, _) => app.set_timer(Duration::from_millis(k as u64), m),
                            (true, 0) => ctx.post(m),
                            (true, 1) => ctx.set_timer(Duration::from_millis(k as u64), m),
                            (true, _) => ctx.sender().send(MessageEnvelope::new(m, None, "x")).unwrap_or(()),
                        }
                    }
                    From::Interval(n, _) if k + 1 >= n => {
                        if let Some(h) = &mut self.handles[i] {
                            if n % 2 == 0 {
                                h.cancel();
                            }
                        }
                        self.handles[i] = None;
                    }
                    _ => {}
                }
                format!("{i} {k} {who}")
            }
            Msg::Switched(b) => format!("s {b} {who}"),
        };
        self.note(t, ctx);
    }
    fn on_command_palette_event(&mut self, event: CommandPaletteEvent, ctx: &mut EventContext<Msg>) {
        self.note(format!("e {}", matches!(event, CommandPaletteEvent::Closed { .. })), ctx);
    }
    fn on_key(&mut self, _key: KeyCode, _ctx: &mut EventContext<Msg>) {}
    fn focus_index(&self) -> usize {
        0
    }
}
/// `vh app PLAN`: the application itself
pub fn app(plan: &str) {
    let mut p = Probe { plan: Plan::read(plan), log: vec![], hash: 7, handles: vec![] };
    if let Err(e) = p.run() {
        eprintln!("! {e}");
    }
}

// ------------------------------------------------------------------ the terminal
struct Screen {
    cells: Vec<Vec<char>>,
    x: usize,
    y: usize,
    w: usize,
    h: usize,
    pending: Vec<u8>,
}
/// what shows that the command palette is open
const PALETTE: &str = "earch for commands";
const W: usize = 60;
const H: usize = 18;
impl Screen {
    fn feed(&mut self, b: &[u8]) {
        self.pending.extend_from_slice(b);
        let data = std::mem::take(&mut self.pending);
        let mut i = 0;
        while i < data.len() {
            if data[i] == 0x1b {
                let Some(&k) = data.get(i + 1) else { break };
                if k == b'[' {
                    let Some(j) = data[i + 2..].iter().position(|c| (0x40..0x7f).contains(c)) else { break };
                    let (arg, last) = (&data[i + 2..i + 2 + j], data[i + 2 + j]);
                    let n: Vec<usize> = std::str::from_utf8(arg).unwrap_or("").split(';').filter_map(|x| x.parse().ok()).collect();
                    match last {
                        b'H' => (self.y, self.x) = (n.first().unwrap_or(&1) - 1, n.get(1).unwrap_or(&1) - 1),
                        b'J' => self.cells = vec![vec![' '; W + 40]; H + 20],
                        b'C' => self.x += n.first().unwrap_or(&1),
                        _ => {}
                    }
                    i += j + 3;
                } else {
                    i += 2;
                }
                continue;
            }
            if data[i] < 0x20 {
                match data[i] {
                    b'\r' => self.x = 0,
                    b'\n' => self.y += 1,
                    _ => {}
                }
                i += 1;
                continue;
            }
            let n = if data[i] < 0x80 { 1 } else if data[i] < 0xe0 { 2 } else if data[i] < 0xf0 { 3 } else { 4 };
            if i + n > data.len() {
                break;
            }
            let c = std::str::from_utf8(&data[i..i + n]).ok().and_then(|s| s.chars().next()).unwrap_or('?');
            if self.x >= self.w {
                (self.x, self.y) = (0, self.y + 1);
            }
            if self.y < self.cells.len() && self.x < self.cells[0].len() {
                self.cells[self.y][self.x] = c;
            }
            self.x += 1;
            i += n;
        }
        self.pending = data[i..].to_vec();
    }
    fn text(&self) -> Vec<String> {
        self.cells.iter().map(|r| r.iter().collect::<String>().trim_end().to_string()).collect()
    }
    fn shows(&self, t: &str) -> bool {
        self.cells.iter().any(|r| r.iter().collect::<String>().contains(t))
    }
}

/// Why a run is wrong: for sure, or because something did not happen in time.
enum Wrong {
    Surely(String),
    Late(String),
}
fn run(plan: &Plan, patience: Duration) -> Result<(), Wrong> {
    // without a terminal nothing can be said
    let no_terminal = || {
        eprintln!("no terminal to run the application in");
        std::thread::sleep(Duration::from_millis(200));
        Ok(())
    };
    let (mut master, name) = unsafe {
        let fd = posix_openpt(2 | 0o400 | 0o2000000);
        if fd < 0 {
            return no_terminal();
        }
        let mut buf = [0 as std::ffi::c_char; 128];
        if grantpt(fd) != 0 || unlockpt(fd) != 0 || ptsname_r(fd, buf.as_mut_ptr(), 128) != 0 {
            return no_terminal();
        }
        (File::from_raw_fd(fd), std::ffi::CStr::from_ptr(buf.as_ptr()).to_string_lossy().into_owned())
    };
    let size = |fd: i32, w: u16, h: u16| unsafe {
        let ws: [u16; 4] = [h, w, 0, 0];
        ioctl(fd, 0x5414, ws.as_ptr());
    };
    size(master.as_raw_fd(), W as u16, H as u16);
    let tty = || File::options().read(true).write(true).custom_flags(0o400).open(&name);
    let (Ok(input), Ok(output)) = (tty(), tty()) else { return no_terminal() };
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("app").arg(plan.write()).env("TERM", "xterm-256color").env_remove("RUST_LOG").env_remove("TEXTUAL_LOG");
    cmd.stdin(input).stdout(output).stderr(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            setsid();
            ioctl(0, 0x540E, 0);
            Ok(())
        });
    }
    let mut child = cmd.spawn().unwrap();
    drop(cmd);
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let reader = {
        let (err, log) = (child.stderr.take().unwrap(), log.clone());
        std::thread::spawn(move || {
            for l in BufReader::new(err).lines().map_while(Result::ok) {
                log.lock().unwrap().push(l);
            }
        })
    };
    unsafe { fcntl(master.as_raw_fd(), 4, 0o4000) };
    let mut screen = Screen { cells: vec![vec![' '; W + 40]; H + 20], x: 0, y: 0, w: W, h: H, pending: vec![] };
    let mut typed = 0;
    let mut value = String::new();
    let mut flips = 0;
    let mut last = Instant::now();
    let mut seen = 0;
    let mut done: Option<Instant> = None;
    let mut up = false;
    let mut palette = false;
    let mut quiet_since = Instant::now();
    let mut all_since: Option<Instant> = None;
    let mut waited = String::new();
    let verdict = loop {
        let mut buf = [0u8; 65536];
        let n = master.read(&mut buf).unwrap_or(0);
        screen.feed(&buf[..n]);
        let lines = log.lock().unwrap().clone();
        if let Some(e) = lines.iter().find(|l| l.starts_with('!') || l.contains("panicked")) {
            break Err(Wrong::Surely(format!("the application failed: {e}")));
        }
        if n > 0 || lines.len() != seen {
            last = Instant::now();
            if lines.len() != seen {
                quiet_since = last;
            }
            seen = lines.len();
        }
        // what has been handled so far
        let mut next = vec![0; plan.from.len()];
        let mut flipped = 0;
        let mut wrong = None;
        for l in &lines {
            let w: Vec<&str> = l.split(' ').collect();
            if w[0] == "e" {
                continue;
            }
            if w[0] == "s" {
                flipped += 1;
                if w[1] != (flipped % 2 == 1).to_string() {
                    wrong = Some(format!("handled out of turn: {l}"));
                }
                if w[2] != "sw" {
                    wrong = Some(format!("the sender is lost: {l}"));
                }
                continue;
            }
            let (i, k): (usize, usize) = (w[0].parse().unwrap(), w[1].parse().unwrap());
            if matches!(plan.from[i], From::Timers(_)) {
                // one-shot timers are senders of their own
                if k < 64 && next[i] & (1 << k) != 0 {
                    wrong = Some(format!("handled twice: {l}"));
                }
                next[i] |= 1usize << k;
            } else {
                if k != next[i] {
                    wrong = Some(format!("handled {} when {} was next: {l}", k, next[i]));
                }
                next[i] += 1;
            }
            let chained = matches!(plan.from[i], From::Chain(_)) && k == 0;
            let named = if nameless(i) && !chained { w[2].is_empty() } else { w[2] == format!("id{i}") && w[3] == format!("type{i}") };
            if !named {
                wrong = Some(format!("the sender is lost: {l}"));
            }
        }
        if flipped > flips {
            wrong = Some(format!("{flipped} messages of the switch for {flips} keys"));
        }
        if let Some(m) = wrong {
            break Err(Wrong::Surely(format!("{m}; handled: {lines:?}")));
        }
        let all = (0..plan.from.len()).all(|i| match plan.from[i] {
            From::Timers(ref d) => next[i] == (1usize << d.len()) - 1,
            _ => next[i] >= plan.expected(i),
        }) && flipped == flips;
        let h = lines.iter().fold(7, |h, l| hash(h, l));
        let fresh = if palette {
            screen.shows(PALETTE)
        } else {
            !screen.shows(PALETTE) && screen.shows(&shown(lines.len(), h)) && (plan.switch || value.is_empty() || screen.shows(&value))
        };
        let quiet = fresh && n == 0;
        if quiet && !up {
            up = true;
        }
        if up && typed < plan.typed.len() {
            // a key at a time, each after the last one has been dealt with
            let calm = fresh && flipped == flips;
            if calm {
                let b = plan.typed[typed];
                typed += 1;
                last = Instant::now();
                match b {
                    b'+' | b'-' | b'>' | b'<' | b'v' | b'^' => {
                        match b {
                            b'+' => (screen.w, screen.h) = (screen.w + 1, screen.h + 1),
                            b'-' => (screen.w, screen.h) = (screen.w - 1, screen.h - 1),
                            b'>' => screen.w += 1,
                            b'<' => screen.w -= 1,
                            b'v' => screen.h += 1,
                            _ => screen.h -= 1,
                        }
                        size(master.as_raw_fd(), screen.w as u16, screen.h as u16);
                        screen.cells = vec![vec!['~'; W + 40]; H + 20];
                    }
                    b'm' => {
                        if plan.switch {
                            flips += 1;
                        }
                        master.write_all(b"\x1b[<0;3;2M\x1b[<0;3;2m").unwrap();
                    }
                    b'\t' => master.write_all(b"\t").unwrap(),
                    b'P' => {
                        palette = true;
                        master.write_all(b"\x10").unwrap();
                    }
                    b'E' => {
                        palette = false;
                        master.write_all(b"\x1b").unwrap();
                    }
                    b => {
                        if plan.switch {
                            flips += 1;
                            master.write_all(b"\r").unwrap();
                        } else {
                            value.push(b as char);
                            master.write_all(&[b]).unwrap();
                        }
                    }
                }
            }
        }
        if all && fresh && up && typed == plan.typed.len() {
            // a moment for what should not come any more
            let since = *done.get_or_insert_with(Instant::now);
            if since.max(quiet_since).elapsed() > Duration::from_millis(12) {
                break Ok(());
            }
        } else {
            done = None;
        }
        if all && all_since.get_or_insert_with(Instant::now).elapsed() > patience * 3 {
            break Err(Wrong::Late(format!("messages keep coming: handled {} of them", lines.len())));
        }
        if last.elapsed() > patience {
            waited.push_str(&format!("the screen shows {:?}", screen.text().iter().filter(|l| !l.is_empty()).collect::<Vec<_>>()));
            let what = if !all { "not every message was handled" } else { "the screen was not redrawn" };
            break Err(Wrong::Late(format!("{what}: handled {lines:?}, {flips} keys for the switch, typed {value:?}, {waited}")));
        }
        if n == 0 {
            std::thread::sleep(Duration::from_micros(300));
        }
    };
    let _ = child.kill();
    let _ = child.wait();
    drop(master);
    let _ = reader.join();
    verdict
}

fn any_plan<S: Src>(s: &mut S) -> Plan {
    let mut from = vec![];
    for _ in 0..s.below(4) {
        from.push(match s.below(5) {
            0 => From::Post(s.below(6)),
            1 => From::Thread(s.below(8), [0, 50, 1500][s.below(3)]),
            2 => From::Timers((0..s.below(4)).map(|_| s.below(8) as u64).collect()),
            3 => From::Interval(1 + s.below(4), 1 + s.below(4) as u64),
            _ => From::Chain(s.below(6)),
        });
    }
    let switch = s.bool();
    let mut typed = vec![];
    for _ in 0..s.below(5) {
        match s.below(8) {
            // the terminal library loses a new size that comes together with a key it has not read yet: a tab or a
            // click shows nothing that could be waited for
            0 if !matches!(typed.last(), Some(b'\t' | b'm')) => typed.push(b"+-><v^"[s.below(6)]),
            0 => {}
            1 | 2 if switch => typed.push(b'm'),
            3 => {
                typed.push(b'P');
                if s.bool() {
                    typed.push(b"+-><v^"[s.below(6)]);
                }
                typed.push(b'E');
            }
            4 => typed.push(b'\t'),
            _ => typed.push(b"wxyz"[s.below(4)]),
        }
    }
    let p = Plan { from, switch, typed };
    s.note(&|| format!("{p:?}"));
    p
}
pub fn c24_pump<S: Src>(s: &mut S) {
    let plan = any_plan(s);
    match run(&plan, Duration::from_millis(3000)) {
        Ok(()) => {}
        Err(Wrong::Surely(m)) => panic!("{m}"),
        Err(Wrong::Late(_)) => {
            // again, with more patience: a loaded machine is no defect
            match run(&plan, Duration::from_millis(8000)) {
                Ok(()) => {}
                Err(Wrong::Surely(m)) | Err(Wrong::Late(m)) => panic!("{m}"),
            }
        }
    }
}

// ------------------------------------------------------------------ messages on their way up
#[derive(Clone, Debug)]
struct Ring {
    /// what it answers, what it makes of the message itself, and whether it stops it
    says: Option<u32>,
    turns: Option<u32>,
    stops: bool,
    before: usize,
}
type Meetings = std::rc::Rc<std::cell::RefCell<Vec<(usize, u32, Option<String>, String)>>>;
struct Around {
    depth: usize,
    ring: Ring,
    kids: Vec<Box<dyn Widget<u32>>>,
    met: Meetings,
}
impl Widget<u32> for Around {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size {
        Size::new(1, 1)
    }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<u32>)) {
        self.kids.iter_mut().for_each(|k| f(k.as_mut()))
    }
    fn child_count(&self) -> usize {
        self.kids.len()
    }
    fn get_child_mut(&mut self, i: usize) -> Option<&mut (dyn Widget<u32> + '_)> {
        match self.kids.get_mut(i) {
            Some(k) => Some(k.as_mut()),
            None => None,
        }
    }
    fn count_focusable(&self) -> usize {
        self.kids.iter().map(|k| k.count_focusable()).sum()
    }
    fn clear_focus(&mut self) {
        self.kids.iter_mut().for_each(|k| k.clear_focus())
    }
    fn focus_nth(&mut self, mut n: usize) -> bool {
        for k in &mut self.kids {
            let c = k.count_focusable();
            if n < c {
                return k.focus_nth(n);
            }
            n -= c;
        }
        false
    }
    fn handle_message(&mut self, e: &mut MessageEnvelope<u32>) -> Option<u32> {
        self.met.borrow_mut().push((self.depth, e.message, e.sender_id.clone(), e.sender_type.clone()));
        if let Some(t) = self.ring.turns {
            e.message = t;
        }
        if self.ring.stops {
            e.stop();
        }
        self.ring.says
    }
}
/// A message of the focused widget meets the widgets around it, from the innermost outwards, until one stops it.
pub fn c24_bubble<S: Src>(s: &mut S) {
    let met: Meetings = Default::default();
    let depth = 1 + s.below(5);
    let rings: Vec<Ring> = (0..depth)
        .map(|_| Ring { says: if s.below(3) == 0 { Some(s.below(50) as u32) } else { None }, turns: if s.below(4) == 0 { Some(s.below(50) as u32) } else { None }, stops: s.below(4) == 0, before: s.below(3) })
        .collect();
    let boxed = s.bool();
    let other = |met: &Meetings| Around { depth: 99, ring: Ring { says: Some(99), turns: None, stops: true, before: 0 }, kids: vec![], met: met.clone() };
    let mut w: Box<dyn Widget<u32>> = Box::new(Switch::new(false, |b| 1000 + b as u32).with_id("sw"));
    for (d, ring) in rings.iter().enumerate().rev() {
        let mut kids: Vec<Box<dyn Widget<u32>>> = (0..ring.before).map(|_| Box::new(other(&met)) as Box<dyn Widget<u32>>).collect();
        kids.push(w);
        if s.bool() {
            kids.push(Box::new(other(&met)));
        }
        let a = Around { depth: d, ring: ring.clone(), kids, met: met.clone() };
        w = if boxed { Box::new(Box::new(a) as Box<dyn Widget<u32>>) } else { Box::new(a) };
    }
    s.note(&|| format!("around the switch, outermost first: {rings:?}"));
    let mut tree = WidgetTree::new(w);
    assert!(tree.set_focus_index(0), "the switch takes the focus");
    let msg = tree.dispatch_key(KeyCode::Enter).expect("the switch answers");
    let who = tree.focused_sender_info();
    assert_eq!((who.id.as_deref(), who.type_name), (Some("sw"), "Switch"), "the sender");
    let got = tree.bubble_message(MessageEnvelope::new(msg, who.id.as_deref(), who.type_name));
    let mut want = vec![];
    let (mut m, mut on) = (1001, true);
    for (d, r) in rings.iter().enumerate().rev() {
        want.push((d, m, Some("sw".to_string()), "Switch".to_string()));
        m = r.says.or(r.turns).unwrap_or(m);
        if r.stops {
            on = false;
            break;
        }
    }
    assert_eq!(*met.borrow(), want, "who met the message");
    assert_eq!((got.message, got.is_bubbling(), got.sender_id.as_deref(), got.sender_type.as_str()), (m, on, Some("sw"), "Switch"), "what is left of the message");
}
