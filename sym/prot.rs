//! Runs whole protocols between tracked parties, in lockstep, and checks evidence of faults.
use std::boxed::Box;
use std::collections::{BTreeMap, BTreeSet};
use std::{format, string::{String, ToString}, vec::Vec};

use manul::protocol::*;
use serde_json::Value;

use super::ents::{out_share, out_threshold, signing_key, Id};
use super::par::SymParams as P;
use super::rec;
use super::scen::*;
use crate::curve::Scalar;
use crate::entities::{AuxInfo, KeyShare, KeyShareChange, ThresholdKeyShare};
use crate::protocols::{AuxGen, AuxGenAssociatedData, KeyRefresh, KeyRefreshAssociatedData, KeyInit, KeyInitAssociatedData, KeyResharing, NewHolder, OldHolder};

pub type Tamper<'a> = &'a mut dyn FnMut(u8, Id, Id, &mut ProtocolMessage);
pub type Sent = BTreeMap<u8, BTreeMap<(Id, Id), ProtocolMessage>>;
pub struct Fault<E> {
    pub at: Id,
    pub by: Id,
    pub round: u8,
    pub error: Option<E>,
    pub text: String,
}
pub struct Run<Pr: Protocol<Id>> {
    pub sent: Sent,
    pub results: BTreeMap<Id, Pr::Result>,
    pub faults: Vec<Fault<Pr::ProtocolError>>,
    pub failed: BTreeMap<Id, String>,
}

pub fn text(name: &str, s: impl std::fmt::Display) {
    rec::line(format!("O {name} 0 {}", s.to_string().replace(' ', "_")));
}

pub fn run<Pr: Protocol<Id>>(c: &mut Ctx, parties: BTreeMap<Id, BoxedRound<Id, Pr>>, tamper: Tamper) -> Run<Pr> {
    let mut r: Run<Pr> = Run { sent: BTreeMap::new(), results: BTreeMap::new(), faults: Vec::new(), failed: BTreeMap::new() };
    let mut active = parties;
    let f = BoxedFormat;
    let mut steps = 0;
    while !active.is_empty() {
        steps += 1;
        assert!(steps < 12, "the protocol does not end");
        let mut numbers = BTreeMap::new();
        let mut artifacts: BTreeMap<Id, BTreeMap<Id, Artifact>> = BTreeMap::new();
        let mut sent: BTreeMap<(Id, Id), ProtocolMessage> = BTreeMap::new();
        for (id, round) in &active {
            let n = round.0.transition_info().id.number();
            numbers.insert(*id, n);
            let info = round.0.communication_info();
            let echo = round.0.make_echo_broadcast(&mut c.rng, &f).expect("echo broadcast");
            let normal = round.0.make_normal_broadcast(&mut c.rng, &f).expect("normal broadcast");
            let arts = artifacts.entry(*id).or_default();
            for to in &info.message_destinations {
                let (direct, art) = round.0.make_direct_message(&mut c.rng, &f, to).expect("direct message");
                if let Some(a) = art {
                    arts.insert(*to, a);
                }
                let mut m = ProtocolMessage { echo_broadcast: echo.clone(), normal_broadcast: normal.clone(), direct_message: direct };
                tamper(n, *id, *to, &mut m);
                sent.insert((*id, *to), m);
            }
        }
        let mut payloads: BTreeMap<Id, BTreeMap<Id, Payload>> = BTreeMap::new();
        for (id, round) in &active {
            let mine = payloads.entry(*id).or_default();
            for from in &round.0.communication_info().expecting_messages_from {
                let Some(m) = sent.get(&(*from, *id)) else {
                    r.failed.insert(*id, format!("no message from {from} in round {}", numbers[id]));
                    continue;
                };
                match round.0.receive_message(&f, from, m.clone()) {
                    Ok(p) => {
                        mine.insert(*from, p);
                    }
                    Err(ReceiveError::Local(e)) => {
                        r.failed.insert(*id, e.0);
                    }
                    Err(ReceiveError::Message(e)) => {
                        r.faults.push(Fault { at: *id, by: *from, round: numbers[id], error: None, text: e.0 })
                    }
                    Err(ReceiveError::Protocol(e)) => {
                        let t = format!("{e:?}");
                        r.faults.push(Fault { at: *id, by: *from, round: numbers[id], error: Some(e), text: t })
                    }
                    Err(ReceiveError::Never(_)) => unreachable!(),
                }
            }
        }
        for (k, m) in sent {
            let n = numbers[&k.0];
            r.sent.entry(n).or_default().insert(k, m);
        }
        if !r.faults.is_empty() || !r.failed.is_empty() {
            return r;
        }
        let mut next = BTreeMap::new();
        for (id, round) in active {
            let info = round.0.transition_info();
            let p = payloads.remove(&id).unwrap_or_default();
            let a = artifacts.remove(&id).unwrap_or_default();
            match round.0.finalize(&mut c.rng, p, a) {
                Ok(FinalizeOutcome::AnotherRound(x)) => {
                    if !info.children.contains(&x.0.transition_info().id) {
                        text("illegal_transition", format!("{}->{}", info.id.number(), x.0.transition_info().id.number()));
                    }
                    next.insert(id, x);
                }
                Ok(FinalizeOutcome::Result(x)) => {
                    if !info.may_produce_result {
                        text("illegal_result", info.id.number());
                    }
                    r.results.insert(id, x);
                }
                Err(e) => {
                    r.failed.insert(id, e.0);
                }
            }
        }
        if !r.failed.is_empty() {
            return r;
        }
        active = next;
    }
    r
}

/// Whether a third party confirms `error`, given what `guilty` sent to `at`.
pub fn confirm<E: ProtocolError<Id>>(
    sent: &Sent, error: &E, round: u8, guilty: Id, at: Id, shared: &[u8], assoc: &E::AssociatedData,
) -> &'static str {
    let req = error.required_messages();
    let pick = |n: u8, parts: &RequiredMessageParts| -> Option<ProtocolMessage> {
        let m = sent.get(&n)?.get(&(guilty, at))?.clone();
        let missing = (parts.echo_broadcast && m.echo_broadcast.is_none())
            || (parts.normal_broadcast && m.normal_broadcast.is_none())
            || (parts.direct_message && m.direct_message.is_none());
        if missing {
            return None;
        }
        Some(ProtocolMessage {
            echo_broadcast: if parts.echo_broadcast { m.echo_broadcast } else { EchoBroadcast(None) },
            normal_broadcast: if parts.normal_broadcast { m.normal_broadcast } else { NormalBroadcast(None) },
            direct_message: if parts.direct_message { m.direct_message } else { DirectMessage(None) },
        })
    };
    let Some(message) = pick(round, &req.this_round) else { return "unavailable" };
    let mut previous = BTreeMap::new();
    for (n, parts) in req.previous_rounds.unwrap_or_default() {
        let Some(m) = pick(n.number(), &parts) else { return "unavailable" };
        previous.insert(n, m);
    }
    let mut echos = BTreeMap::new();
    for n in req.combined_echos.unwrap_or_default() {
        let mut all: BTreeMap<Id, EchoBroadcast> = BTreeMap::new();
        for ((from, _), m) in sent.get(&n.number()).into_iter().flatten() {
            if *from != guilty {
                all.insert(*from, m.echo_broadcast.clone());
            }
        }
        echos.insert(n, all);
    }
    match error.verify_messages_constitute_error(&BoxedFormat, &guilty, shared, assoc, message, previous, echos) {
        Ok(()) => "confirmed",
        Err(ProtocolValidationError::InvalidEvidence(_)) => "rejected",
        Err(ProtocolValidationError::Local(_)) => "local_error",
    }
}

/// Whether a third party confirms that a message part does not have the expected form.
pub fn malformed<Pr: Protocol<Id>>(n: u8, m: &ProtocolMessage) -> String {
    let f = BoxedFormat;
    let mut out = String::new();
    // A missing part is not a message that can be shown to anyone.
    if !m.echo_broadcast.is_none() && Pr::verify_echo_broadcast_is_invalid(&f, &n.into(), &m.echo_broadcast).is_ok() {
        out.push('e');
    }
    if !m.normal_broadcast.is_none() && Pr::verify_normal_broadcast_is_invalid(&f, &n.into(), &m.normal_broadcast).is_ok() {
        out.push('n');
    }
    if !m.direct_message.is_none() && Pr::verify_direct_message_is_invalid(&f, &n.into(), &m.direct_message).is_ok() {
        out.push('d');
    }
    if out.is_empty() { "none".into() } else { out }
}

/// Logs how the run ended, and what a third party makes of the reported faults.
pub fn report<Pr: Protocol<Id>>(r: &Run<Pr>, shared: &[u8], assoc: &<Pr::ProtocolError as ProtocolError<Id>>::AssociatedData, evidence: bool) {
    text("finished", format!("{:?}", r.results.keys().collect::<Vec<_>>()));
    text("failed", format!("{:?}", r.failed));
    text("faults", r.faults.len());
    for (k, x) in r.faults.iter().enumerate() {
        text(&format!("fault{k}.by"), x.by);
        text(&format!("fault{k}.at"), x.at);
        text(&format!("fault{k}.what"), format!("round{}:{}", x.round, x.text));
        if !evidence {
            continue;
        }
        let v = match &x.error {
            Some(e) => confirm(&r.sent, e, x.round, x.by, x.at, shared, assoc).to_string(),
            None => {
                let m = malformed::<Pr>(x.round, &r.sent[&x.round][&(x.by, x.at)]);
                if m == "none" { "rejected".into() } else { "confirmed".to_string() }
            }
        };
        text(&format!("fault{k}.evidence"), v);
    }
}

/// No statement about the messages of the parties other than `cheat` is confirmed.
pub fn innocent<Pr: Protocol<Id>>(
    r: &Run<Pr>, errors: &[(String, u8, Pr::ProtocolError)], shared: &[u8],
    assoc: &<Pr::ProtocolError as ProtocolError<Id>>::AssociatedData, cheat: Option<Id>,
) {
    let mut bad = Vec::new();
    let mut n = 0;
    for (round, ms) in &r.sent {
        for ((from, to), m) in ms {
            if Some(*from) == cheat {
                continue;
            }
            n += 1;
            let x = malformed::<Pr>(*round, m);
            if x != "none" {
                bad.push(format!("{from}->{to}/round{round}:malformed:{x}"));
            }
            for (name, at, e) in errors.iter().filter(|(_, at, _)| at == round) {
                if confirm(&r.sent, e, *at, *from, *to, shared, assoc) == "confirmed" {
                    bad.push(format!("{from}->{to}:{name}"));
                }
            }
        }
    }
    text("examined", if n > 0 { "some" } else { "none" });
    text("wrongly_confirmed", format!("{bad:?}"));
}

/// Replaces part of the named message by the given value.  `args["tamper"]`: {round, from, part, path, value}.
pub fn tamper_from(c: &Ctx) -> impl FnMut(u8, Id, Id, &mut ProtocolMessage) {
    let specs: Vec<Value> = if c.has("tamper") { c.g("tamper").as_array().unwrap().clone() } else { Vec::new() };
    move |n, from, to, m| {
        for t in &specs {
            if t["round"].as_u64() != Some(n as u64) || t["from"].as_u64() != Some(from as u64) {
                continue;
            }
            if t.get("to").map_or(false, |x| x.as_u64() != Some(to as u64)) {
                continue;
            }
            let s = match t["part"].as_str().unwrap() {
                "echo" => &mut m.echo_broadcast.0,
                "normal" => &mut m.normal_broadcast.0,
                _ => &mut m.direct_message.0,
            };
            if t["path"].is_null() {
                *s = t["value"].as_str().map(|x| x.to_string());
                continue;
            }
            let mut v: Value = serde_json::from_str(s.as_ref().expect("SCENARIO-INPUT no such part")).unwrap();
            let mut at = &mut v;
            for k in t["path"].as_array().unwrap() {
                at = match k {
                    Value::String(s) => at.get_mut(s).expect("SCENARIO-INPUT no such field"),
                    k => at.get_mut(k.as_u64().unwrap() as usize).expect("SCENARIO-INPUT no such element"),
                };
            }
            *at = t["value"].clone();
            *s = Some(v.to_string());
        }
    }
}

fn id_set(c: &Ctx, k: &str) -> BTreeSet<Id> {
    c.g(k).as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as Id).collect()
}
pub fn errors<E: serde::de::DeserializeOwned>(c: &Ctx) -> Vec<(String, u8, E)> {
    let mut out = Vec::new();
    for x in c.g("errors").as_array().unwrap() {
        let name = x["name"].as_str().unwrap().to_string();
        out.push((name, x["round"].as_u64().unwrap() as u8, de(&x["value"])));
    }
    out
}

const SHARED: &[u8] = b"shared randomness";

fn key_init(c: &mut Ctx) {
    let ids = id_set(c, "ids");
    let mut parties = BTreeMap::new();
    for id in &ids {
        let e = KeyInit::<P, Id>::new(ids.clone()).expect("entry point");
        parties.insert(*id, e.make_round(&mut c.rng, SHARED, id).expect("the first round"));
    }
    let mut t = tamper_from(c);
    let r = run(c, parties, &mut t);
    let assoc = KeyInitAssociatedData { ids: ids.clone() };
    report(&r, SHARED, &assoc, true);
    for (id, s) in &r.results {
        out_share(&format!("k{id}"), s);
    }
    if c.has("errors") {
        innocent(&r, &errors(c), SHARED, &assoc, c.has("cheat").then(|| c.n("cheat") as Id));
    }
}

/// Two resharings (optional second) starting from centralized shares.
fn resharing(c: &mut Ctx) {
    let old = id_set(c, "old");
    let t = c.n("t") as usize;
    let sk = signing_key(c, "secret");
    let mut shares = ThresholdKeyShare::<P, Id>::new_centralized(&mut c.rng, &old, t, Some(&sk)).expect("SCENARIO-INPUT shares");
    for (k, step) in c.g("steps").as_array().unwrap().clone().iter().enumerate() {
        let list = |k: &str| -> BTreeSet<Id> { step[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as Id).collect() };
        let (senders, new) = (list("senders"), list("new"));
        let nt = step["t"].as_u64().unwrap() as usize;
        let old_threshold = shares.values().next().unwrap().threshold() as usize;
        let vk = shares.values().next().unwrap().verifying_key().expect("SCENARIO-INPUT key");
        let mut parties = BTreeMap::new();
        for id in senders.union(&new) {
            let o = senders.contains(id).then(|| OldHolder { key_share: shares[id].clone() });
            let n = new.contains(id).then(|| NewHolder { verifying_key: vk, old_threshold, old_holders: senders.clone() });
            let e = KeyResharing::<P, Id>::new(o, n, new.clone(), nt);
            parties.insert(*id, e.make_round(&mut c.rng, SHARED, id).expect("the first round"));
        }
        let mut tm = tamper_from(c);
        let r = run(c, parties, &mut tm);
        report(&r, SHARED, &(), false);
        let mut got = BTreeMap::new();
        for (id, s) in r.results {
            match s {
                Some(s) => {
                    out_threshold(&format!("r{k}.{id}"), &s);
                    got.insert(id, s);
                }
                None => text(&format!("r{k}.{id}"), "none"),
            }
        }
        if got.len() != new.len() {
            return;
        }
        shares = got;
    }
    text("done", "yes");
}

fn with_primes(c: &Ctx) {
    if c.has("primes") {
        let p = c.g("primes").as_array().unwrap().iter().map(|x| rec::unhex(x.as_str().unwrap())).collect();
        rec::with(|r| r.primes = Some(p));
    }
}
pub fn out_aux(name: &str, a: &AuxInfo<P, Id>) {
    let v = out_wire(name, a);
    text(&format!("{name}.json"), v);
}

fn key_refresh(c: &mut Ctx) {
    with_primes(c);
    let ids = id_set(c, "ids");
    let mut parties = BTreeMap::new();
    for id in &ids {
        let e = KeyRefresh::<P, Id>::new(ids.clone()).expect("entry point");
        parties.insert(*id, e.make_round(&mut c.rng, SHARED, id).expect("the first round"));
    }
    let mut t = tamper_from(c);
    let r = run(c, parties, &mut t);
    let assoc = KeyRefreshAssociatedData { ids: ids.clone() };
    report(&r, SHARED, &assoc, true);
    if c.has("errors") {
        innocent(&r, &errors(c), SHARED, &assoc, c.has("cheat").then(|| c.n("cheat") as Id));
    }
    for (id, (change, aux)) in &r.results {
        text(&format!("c{id}.owner"), change.owner);
        out_s(&format!("c{id}.secret"), change.secret_share_change.expose_secret());
        text(&format!("c{id}.parties"), format!("{:?}", change.public_share_changes.keys().collect::<Vec<_>>()));
        for (j, p) in change.public_share_changes.iter() {
            out_p(&format!("c{id}.public{j}"), p);
        }
        out_aux(&format!("aux{id}"), aux);
    }
}

fn aux_gen(c: &mut Ctx) {
    with_primes(c);
    let ids = id_set(c, "ids");
    let mut parties = BTreeMap::new();
    for id in &ids {
        let e = AuxGen::<P, Id>::new(ids.clone()).expect("entry point");
        parties.insert(*id, e.make_round(&mut c.rng, SHARED, id).expect("the first round"));
    }
    let mut t = tamper_from(c);
    let r = run(c, parties, &mut t);
    let assoc = AuxGenAssociatedData { ids: ids.clone() };
    report(&r, SHARED, &assoc, true);
    if c.has("errors") {
        innocent(&r, &errors(c), SHARED, &assoc, c.has("cheat").then(|| c.n("cheat") as Id));
    }
    for (id, aux) in &r.results {
        out_aux(&format!("aux{id}"), aux);
    }
}

/// An update of additive shares x by changes d, all given as scalars.
fn update(c: &mut Ctx) {
    let sc = |k: &str| -> Vec<(Id, Scalar<P>)> {
        c.g(k).as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as Id, de(&x[1]))).collect()
    };
    let pts = |v: &[(Id, Scalar<P>)]| -> Value {
        serde_json::to_value(v.iter().map(|(i, x)| (*i, x.mul_by_generator())).collect::<Vec<_>>()).unwrap()
    };
    let (x, d) = (sc("x"), sc("d"));
    let (owner, cowner) = (c.n("owner"), c.n("change_owner"));
    let find = |v: &[(Id, Scalar<P>)], i: u32| v.iter().find(|y| y.0 as u32 == i).map(|y| y.1).unwrap_or(v[0].1);
    let share: KeyShare<P, Id> =
        de(&serde_json::json!({"owner": owner, "secret": serde_json::to_value(find(&x, owner)).unwrap(), "public": pts(&x)}));
    let change: KeyShareChange<P, Id> = de(&serde_json::json!({"owner": cowner,
        "secret_share_change": serde_json::to_value(find(&d, cowner)).unwrap(), "public_share_changes": pts(&d)}));
    match share.update(change) {
        Ok(s) => {
            text("after", "share");
            out_share("a", &s)
        }
        Err(_) => text("after", "error"),
    }
}

pub fn scenarios() -> Vec<(&'static str, Scen)> {
    std::vec![("key_init", key_init as Scen), ("resharing", resharing as Scen), ("update", update as Scen),
        ("key_refresh", key_refresh as Scen), ("aux_gen", aux_gen as Scen)]
}
