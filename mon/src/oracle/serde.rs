//! Serialization round trips (C15).

use super::short;
use crate::typed::{kind, observe};
use crate::{guarded, Obs};
use serde::{Deserialize, Serialize};
use tmi::Message;

fn text<'de, T: Deserialize<'de>>(j: &'de str) -> Result<T, String> {
  serde_json::from_str(j).map_err(|e| e.to_string())
}
fn bytes<'de, T: Deserialize<'de>>(j: &'de str) -> Result<T, String> {
  serde_json::from_slice(j.as_bytes()).map_err(|e| e.to_string())
}
/// strings arrive owned
fn tree<T: Deserialize<'static>>(j: &impl Serialize) -> Result<T, String> {
  let v = serde_json::to_value(j).map_err(|e| format!("to_value: {e}"))?;
  T::deserialize(v).map_err(|e| e.to_string())
}
/// strings arrive borrowed
fn tree_ref<'de, T: Deserialize<'de>>(v: &'de serde_json::Value) -> Result<T, String> {
  T::deserialize(v).map_err(|e| e.to_string())
}

macro_rules! round {
  ($t:ty, $ts:ty, $x:expr, $name:expr, $obs:expr, $v:ident) => {{
    let x = $x;
    match serde_json::to_string(x) {
      Err(e) => $v.push((format!("{} serialize", $name), format!("{}: {e}", $name))),
      Ok(json) => {
        let before = $obs(x.clone());
        let v = serde_json::to_value(x).unwrap_or_default();
        let back: [(&str, Result<$t, String>); 4] = [
          ("borrowed value tree", tree_ref::<$t>(&v)),
          ("text", text::<$t>(&json)),
          ("bytes", bytes::<$t>(&json)),
          ("value tree", tree::<$ts>(x)),
        ];
        for (how, b) in back {
          match b {
            Err(e) => $v.push((
              format!("{} from {how}", $name),
              format!("{} does not deserialize from {how}: {e}; JSON {}", $name, short(&json)),
            )),
            Ok(b) => {
              if b != *x {
                $v.push((
                  format!("{} unequal from {how}", $name),
                  format!("{}: {} came back as {}", $name, short(x), short(&b)),
                ));
              }
              if $obs(b.clone()) != before {
                $v.push((
                  format!("{} getters from {how}", $name),
                  format!("{}: getters differ after the round trip: {} / {}", $name, short(x), short(&b)),
                ));
              }
              match serde_json::to_string(&b) {
                Ok(j) if j == json => {}
                Ok(j) => $v.push((
                  format!("{} JSON from {how}", $name),
                  format!("{}: {} serializes again as {}", $name, short(&json), short(&j)),
                )),
                Err(e) => $v.push((format!("{} serialize", $name), e.to_string())),
              }
            }
          }
        }
      }
    }
  }};
}

pub fn c15(s: &str, o: &mut Obs) {
  let r = guarded(|| {
    let mut v: Vec<(String, String)> = vec![];
    let mut k = "";
    if let Ok(m) = Message::parse(s) {
      k = kind(&m);
      macro_rules! all {
        ($($t:ident),*) => {
          match &m {
            $(Message::$t(x) => {
              round!(tmi::$t<'_>, tmi::$t<'static>, x, k, |x: tmi::$t<'_>| format!("{:?}", observe(&Message::from(x))), v);
            })*
            Message::Reconnect | Message::Other(_) => k = "",
          }
        };
      }
      all!(
        ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState,
        UserNotice, UserState, Whisper
      );
    }
    (k, v)
  });
  match r {
    Err(p) => o.v(format!("panic {}", p.at), format!("panicked at {}: {}", p.at, p.msg)),
    Ok((k, v)) => {
      if !k.is_empty() {
        o.decided = true;
        o.hit(k);
        o.hits("round trips", 4);
        o.outcome = format!("{k}: equal after text, bytes and value tree");
      }
      for (sig, msg) in v {
        o.v(sig, msg);
      }
    }
  }
}

pub fn json(m: &Message<'_>) -> String {
  macro_rules! all {
    ($($t:ident),*) => {
      match m {
        $(Message::$t(x) => serde_json::to_string(x).unwrap_or_else(|e| e.to_string()),)*
        Message::Reconnect | Message::Other(_) => String::new(),
      }
    };
  }
  all!(
    ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState,
    UserNotice, UserState, Whisper
  )
}
