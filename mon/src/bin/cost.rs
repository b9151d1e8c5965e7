//! C28: what one line costs. `cost --shape NAME --n BYTES --group core|format|print` parses one
//! adversarial line of about BYTES bytes; callgrind counts the instructions spent inside
//! `mon_cost_measured`, the allocator below counts the memory.

use std::alloc::{GlobalAlloc, Layout, System};
use std::hint::black_box;
use mon::rng::Rng;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn grew(n: usize) {
  if ON.load(Relaxed) {
    TOTAL.fetch_add(n, Relaxed);
    let l = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if (l as isize) > 0 {
      PEAK.fetch_max(l, Relaxed);
    }
  }
}
fn shrank(n: usize) {
  if ON.load(Relaxed) {
    LIVE.fetch_sub(n, Relaxed);
  }
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    grew(l.size());
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    shrank(l.size());
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    grew(n);
    shrank(l.size());
    System.realloc(p, l, n)
  }
}

#[global_allocator]
static A: Counting = Counting;

const IDS: &str = "room-id=1;user-id=2;id=aa-bb;tmi-sent-ts=1594556275000;login=u;display-name=U";

/// Lines which repeat one element until they are `n` bytes long.
fn shapes(n: usize, seed: u64, random: usize) -> Vec<(String, String)> {
  let rep = |s: &str| s.repeat(n / s.len() + 1);
  let list = |f: &dyn Fn(usize) -> String, sep: &str| {
    let mut o = String::new();
    let mut i = 0;
    while o.len() < n {
      if i > 0 {
        o.push_str(sep);
      }
      o.push_str(&f(i));
      i += 1;
    }
    o
  };
  let tail = ":u!u@u.tmi.twitch.tv PRIVMSG #c :hello";
  let notice = ":tmi.twitch.tv USERNOTICE #c :hello";
  let mut v: Vec<(String, String)> = vec![];
  let mut add = |k: &str, s: String| v.push((k.to_string(), s));
  // tags
  add("tags", format!("@{};{IDS} {tail}", list(&|i| format!("k{i}=v{i}"), ";")));
  add("tags first", format!("@{IDS};{} {tail}", list(&|i| format!("k{i}=v"), ";")));
  add("same tag", format!("@{};{IDS} {tail}", rep("a=b;").trim_end_matches(';')));
  add("known tag", format!("@{};{IDS} {tail}", rep("badges=;").trim_end_matches(';')));
  add("empty tags", format!("@{};{IDS} {tail}", rep("a=;").trim_end_matches(';')));
  add("semicolons", format!("@{IDS}{} {tail}", rep(";")));
  add("equals", format!("@a={};{IDS} {tail}", rep("=")));
  add("long key", format!("@{}=v;{IDS} {tail}", rep("key")));
  add("long value", format!("@a={};{IDS} {tail}", rep("v")));
  add("tags only", format!("@{}", rep("a=b;")));
  add("no end of tags", format!("@{}", rep("a")));
  add("escapes", format!("@display-name={};{IDS} {tail}", rep("\\s")));
  add("backslashes", format!("@display-name={};{IDS} {tail}", rep("\\")));
  add("bad escapes", format!("@reply-parent-msg-body={};reply-parent-msg-id=1;{IDS} {tail}", rep("\\q")));
  add("reply", format!(
    "@reply-parent-msg-id=1;reply-parent-user-id=2;reply-parent-user-login=l;reply-parent-display-name=L;reply-parent-msg-body={};{IDS} {tail}",
    rep("a\\s\\:")
  ));
  add("badges", format!("@badges={};badge-info=subscriber/3;{IDS} {tail}", list(&|i| format!("b{i}/1"), ",")));
  add("same badge", format!("@badges={};badge-info=subscriber/3;{IDS} {tail}", rep("subscriber/1,")));
  add("badge info", format!("@badges=subscriber/3;badge-info={};{IDS} {tail}", list(&|i| format!("b{i}/1"), ",")));
  add("commas", format!("@badges={};badge-info=,;{IDS} {tail}", rep(",")));
  add("slashes", format!("@badges={};badge-info=/;{IDS} {tail}", rep("/")));
  add("emotes", format!("@emotes={};{IDS} {tail}", list(&|i| format!("{i}:0-4,6-10"), "/")));
  add("digits", format!("@bits={};{IDS} {tail}", rep("0")));
  add("timestamp", format!("@tmi-sent-ts={}1;{} {tail}", rep("0"), IDS.replace("tmi-sent-ts", "x")));
  add("color", format!("@color=#{};{IDS} {tail}", rep("F")));
  // prefix, command, channel, params, text
  add("prefix", format!("@{IDS} :{}!u@u.tmi.twitch.tv PRIVMSG #c :hello", rep("a")));
  add("bangs", format!("@{IDS} :u{}u@u PRIVMSG #c :hello", rep("!")));
  add("ats", format!("@{IDS} :u!{}u PRIVMSG #c :hello", rep("@")));
  add("bang at", format!("@{IDS} :u{}u PRIVMSG #c :hello", rep("!@")));
  add("command", format!("@{IDS} :u!u@u.tmi.twitch.tv {} #c :hello", rep("COMMAND")));
  add("channel", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #{} :hello", rep("c")));
  add("hashes", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG {} :hello", rep("#")));
  add("spaces", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #c{}:hello", rep(" ")));
  add("params", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #c {}:hello", rep("p ")));
  add("text", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #c :{}", rep("text ")));
  add("wide text", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #c :{}", rep("ü🎉")));
  add("action", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #c :\u{1}ACTION {}\u{1}", rep("a")));
  add("action open", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #c :{}", rep("\u{1}ACTION ")));
  add("colons", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #c :{}", rep(":")));
  add("space colons", format!("@{IDS} :u!u@u.tmi.twitch.tv PRIVMSG #c {}", rep(" :")));
  add("names", format!(":tmi.twitch.tv 353 u = #c :{}", rep("name ")));
  add("names spaces", format!(":tmi.twitch.tv 353{}#c :n", rep(" ")));
  add("cap", format!(":tmi.twitch.tv CAP * ACK :{}", rep("twitch.tv/tags ")));
  add("ping", format!("PING :{}", rep("n")));
  add("pong", format!(":tmi.twitch.tv PONG tmi.twitch.tv :{}", rep("n ")));
  add("whisper", format!("@{IDS};message-id=1;thread-id=1_2 :u!u@u.tmi.twitch.tv WHISPER u :{}", rep("w\\s")));
  add("notice", format!("@msg-id={} :tmi.twitch.tv NOTICE #c :{}", rep("x"), rep("n")));
  add("clearchat", format!("@ban-duration={};room-id=1;target-user-id=2;tmi-sent-ts=1 :tmi.twitch.tv CLEARCHAT #c :{}", rep("0"), rep("u")));
  add("clearmsg", format!("@login={};target-msg-id={};room-id=1;tmi-sent-ts=1594561360331 :tmi.twitch.tv CLEARMSG #c :{}", rep("l"), rep("i"), rep("t ")));
  add("roomstate", format!("@room-id=1;slow={}1;followers-only=1;{} :tmi.twitch.tv ROOMSTATE #c", rep("0"), rep("r9k=1;").trim_end_matches(';')));
  add("emote sets", format!("@emote-sets={};user-id=1;display-name=U;color= :tmi.twitch.tv GLOBALUSERSTATE", list(&|i| i.to_string(), ",")));
  add("emote set commas", format!("@emote-sets={};display-name=U;color= :tmi.twitch.tv USERSTATE #c", rep(",")));
  // user notices
  add("system msg", format!("@msg-id=sub;system-msg={};msg-param-cumulative-months=1;msg-param-sub-plan=1000;msg-param-sub-plan-name={};{IDS} {notice}", rep("a\\s"), rep("p\\s")));
  add("unknown event", format!("@msg-id={};system-msg=;{IDS} {notice}", rep("event")));
  add("event params", format!("@msg-id=raid;system-msg=;msg-param-viewerCount=1;msg-param-profileImageURL={};{};{IDS} {notice}", rep("u"), list(&|i| format!("msg-param-p{i}=x"), ";")));
  add("subgift", format!("@msg-id=subgift;system-msg=;msg-param-months=1;msg-param-gift-months={};msg-param-recipient-id=1;msg-param-recipient-user-name=l;msg-param-recipient-display-name={};msg-param-sub-plan=1000;msg-param-sub-plan-name=p;{IDS} {notice}", rep("0"), rep("\\s")));
  // both lists: the one product that is allowed
  add("badges x info", format!("@badges={};badge-info={};{IDS} {tail}", list(&|i| format!("b{i}/1"), ","), list(&|i| format!("c{i}/1"), ",")));
  // random patterns in every slot
  let mut r = Rng::new(seed ^ 0xc28);
  const SLOTS: &[&str] = &[
    "@{IDS};a={} {tail}",
    "@{};{IDS} {tail}",
    "@{IDS};x{} {tail}",
    "@badges={};badge-info=a/1;{IDS} {tail}",
    "@badges=a/1;badge-info={};{IDS} {tail}",
    "@emotes={};{IDS} {tail}",
    "@flags={};{IDS} {tail}",
    "@{IDS} :u{}!u@u PRIVMSG #c :t",
    "@{IDS} :u!u@{} PRIVMSG #c :t",
    "@{IDS} :u!u@u PRIVMSG {} :t",
    "@{IDS} :u!u@u PRIVMSG #c{}",
    "@{IDS} :u!u@u PRIVMSG #c :{}",
    "@{IDS} :u!u@u {}",
    "@reply-parent-msg-id=1;reply-parent-user-login=a;reply-parent-display-name={};reply-parent-msg-body={};{IDS} {tail}",
    "@msg-id=subgift;system-msg={};{IDS} :t USERNOTICE #c :{}",
    "@emote-sets={} :t USERSTATE #c",
    ":t 353 a = #c :{}",
    "{}",
    "@{}",
  ];
  for i in 0..random {
    let slot = SLOTS[if i < SLOTS.len() { i } else { r.below(SLOTS.len()) }];
    let mut pat = String::new();
    for _ in 0..r.range(1, 5) {
      pat.push_str(*r.pick(&["a", "Z", "0", "7", ";", "=", ",", "/", " ", ":", "\\", "\\s", "\\:", "!", "@", "#", "-", ".", "\u{1}", "é", "b=", ";c=d", "1/2,", "0-4"]));
    }
    let s = slot.replace("{IDS}", IDS).replace("{tail}", tail).replace("{}", &rep(&pat));
    add(&format!("random {i}"), s);
  }
  v
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn mon_cost_measured(s: *const String, group: usize) {
  let s: &str = unsafe { &*s };
  ON.store(true, Relaxed);
  match group {
    0 => core(black_box(s)),
    1 => format(black_box(s)),
    _ => print(black_box(s)),
  }
  ON.store(false, Relaxed);
}

#[inline(never)]
fn core(s: &str) {
  if let Some(m) = tmi::IrcMessage::parse(s) {
    black_box(m.as_ref().tags().count());
    black_box((m.text(), m.channel(), m.params(), m.prefix(), m.command()));
    black_box(m.tag(tmi::Tag::RoomId));
    black_box(m.tag("no-such-tag"));
    let _ = black_box(m.as_typed());
  }
  if let Some(m) = tmi::IrcMessageRef::parse(s) {
    black_box(m.tags().map(|(k, v)| k.len() + v.len()).sum::<usize>());
    black_box((m.text(), m.channel(), m.params()));
    let c = m.clone();
    let _ = black_box(m.as_typed());
    black_box(c.into_owned());
  }
  if let Ok(m) = tmi::Message::parse(s) {
    black_box(&m);
    black_box(m.clone());
  }
}

#[inline(never)]
fn format(s: &str) {
  let mut out = String::new();
  mon::oracle::typed::exercise_all(s, &mut out);
  black_box(&out);
  black_box(tmi::maybe_unescape(s));
  if let Ok(m) = tmi::Message::parse(s) {
    let j = mon::oracle::serde::json(&m);
    black_box(&j);
    let _ = black_box(serde_json::from_str::<tmi::Privmsg<'_>>(&j));
    let _ = black_box(serde_json::from_str::<tmi::UserNotice<'_>>(&j));
  }
}

#[inline(never)]
fn print(s: &str) {
  use std::fmt::Write;
  let mut out = String::new();
  if let Some(m) = tmi::IrcMessageRef::parse(s) {
    let _ = write!(out, "{m:?}{} {}", m.command(), m.prefix().map(|p| p.to_string()).unwrap_or_default());
    for (k, v) in m.tags() {
      let _ = write!(out, "{}{v}", tmi::Tag::parse(k));
    }
  }
  if let Some(m) = tmi::IrcMessage::parse(s) {
    let _ = write!(out, "{m:?}");
  }
  black_box(&out);
}

fn main() {
  let mut a = std::env::args().skip(1);
  let (mut shape, mut n, mut group, mut list) = (String::new(), 4096usize, 0usize, false);
  let (mut seed, mut random, mut emit) = (1u64, 0usize, false);
  while let Some(k) = a.next() {
    match k.as_str() {
      "--shape" => shape = a.next().expect("shape"),
      "--n" => n = a.next().expect("n").parse().expect("n"),
      "--group" => {
        let g = a.next().expect("group");
        group = ["core", "format", "print"].iter().position(|x| *x == g).expect("group");
      }
      "--seed" => seed = a.next().expect("seed").parse().expect("seed"),
      "--random" => random = a.next().expect("random").parse().expect("random"),
      "--emit" => emit = true,
      "--list" => list = true,
      _ => std::process::exit(3),
    }
  }
  let all = shapes(n, seed, random);
  if list {
    for (k, s) in all {
      let typed = tmi::Message::parse(&s).is_ok();
      println!("{k}\t{}\t{typed}", s.len());
    }
    return;
  }
  let Some((_, s)) = all.into_iter().find(|(k, _)| *k == shape) else {
    std::process::exit(3);
  };
  if emit {
    println!("{s}");
    return;
  }
  mon_cost_measured(&s, group);
  println!("LEN {} TOTAL {} PEAK {}", s.len(), TOTAL.load(Relaxed), PEAK.load(Relaxed));
}
