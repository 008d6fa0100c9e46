//! Session layer: runs the rounds of one protocol at all parties with a controllable delivery order
//! and message tampering, records everything observable, and builds/verifies evidence.
//!
//! Authentication is perfect: a message from X is known to be from X (as with signatures), and
//! echo broadcasts are compared among the participants before a round is finalized.

use crate::protocol::*;
use core::fmt::Debug;
use rand_core::CryptoRngCore;
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    panic::{catch_unwind, AssertUnwindSafe},
};

pub trait Control<Id: PartyId> {
    /// May change a message on its way. Called once per (round, from, to).
    fn tamper(&mut self, _round: u8, _from: &Id, _to: &Id, _msg: &mut ProtocolMessage) {}
    /// May change what a (corrupted) party makes of a message it received; what it reports to have
    /// received in the echo round stays as it was sent, since messages are authenticated.
    fn misread(&mut self, _round: u8, _from: &Id, _to: &Id, _msg: &mut ProtocolMessage) {}
    /// Whether a (corrupted) party reports what it received even when it has no use for it.
    fn reports_anyway(&mut self, _party: &Id) -> bool {
        false
    }
    /// Which of the undelivered messages `(round, from, to, is an echo)` is delivered next.
    fn pick(&mut self, _queue: &[(u8, Id, Id, bool)]) -> usize {
        0
    }
    /// Other messages to try in place of this one when it is received; the session goes on with the original.
    fn variants(&mut self, _round: u8, _from: &Id, _to: &Id, _msg: &ProtocolMessage) -> Vec<ProtocolMessage> {
        Vec::new()
    }
    /// What became of the `idx`-th variant, and whether the evidence it led to, if any, is accepted.
    fn probed(&mut self, _round: u8, _from: &Id, _to: &Id, _idx: usize, _verdict: &Verdict, _evidence: &Proven) {}
    /// A generator of its own for a party (otherwise all share one).
    fn rng_for(&mut self, _party: &Id) -> Option<Box<dyn CryptoRngCore>> {
        None
    }
    /// Looks at the state of a party when it starts a round.
    fn started(&mut self, _round: u8, _party: &Id, _debug: &dyn Fn() -> String) {}
}

/// Whether evidence is accepted by a third party.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Proven {
    /// There is no evidence
    None,
    Yes,
    No(String),
    Local(String),
    Panic(String),
}
impl Proven {
    pub fn name(&self) -> &'static str {
        match self {
            Proven::None => "none",
            Proven::Yes => "yes",
            Proven::No(_) => "no",
            Proven::Local(_) => "local",
            Proven::Panic(_) => "panic",
        }
    }
}
pub struct NoControl;
impl<Id: PartyId> Control<Id> for NoControl {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Class {
    Result,
    /// The session cannot continue: provable errors were found, or messages are missing
    Stopped,
    LocalError(String),
    Panic(String),
}

#[derive(Debug)]
pub enum Outcome<R> {
    Result(R),
    Stopped,
    LocalError(String),
    Panic(String),
}
impl<R> Outcome<R> {
    pub fn class(&self) -> Class {
        match self {
            Outcome::Result(_) => Class::Result,
            Outcome::Stopped => Class::Stopped,
            Outcome::LocalError(e) => Class::LocalError(e.clone()),
            Outcome::Panic(e) => Class::Panic(e.clone()),
        }
    }
}

#[derive(Debug, Clone)]
pub enum Verdict {
    Ok,
    Part { part: &'static str, message: String },
    Protocol { description: String, debug: String },
    Equivocation,
    Local(String),
    Unprovable(String),
    Panic(String),
}

#[derive(Debug, Clone)]
pub enum Event<Id> {
    Start { party: Id, error: Option<String> },
    Receive { party: Id, round: u8, from: Id, verdict: Verdict },
    Echo { party: Id, round: u8, ok: bool },
    Finalize { party: Id, round: u8, next: String },
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs `f`, turning a panic into `Err(message with location)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    static HOOK: std::sync::Once = std::sync::Once::new();
    HOOK.call_once(|| {
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let quiet = LAST_PANIC.with(|p| p.borrow().is_some());
            if quiet {
                let s = format!("{} @ {}", info, info.location().map(|l| l.to_string()).unwrap_or_default());
                LAST_PANIC.with(|p| *p.borrow_mut() = Some(s.replace('\n', " ")));
            } else {
                default(info)
            }
        }));
    });
    let before = LAST_PANIC.with(|p| p.borrow_mut().replace(String::new()));
    let result = catch_unwind(AssertUnwindSafe(f));
    let message = LAST_PANIC.with(|p| core::mem::replace(&mut *p.borrow_mut(), before));
    result.map_err(|_| message.unwrap_or_default())
}

pub enum EvidenceKind<Id: PartyId, P: Protocol<Id>> {
    Echo(EchoBroadcast),
    Normal(NormalBroadcast),
    Direct(DirectMessage),
    Equivocation,
    Protocol {
        error: P::ProtocolError,
        message: ProtocolMessage,
        previous: BTreeMap<RoundId, ProtocolMessage>,
        echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
    },
}

pub struct Evidence<Id: PartyId, P: Protocol<Id>> {
    pub guilty: Id,
    pub round: u8,
    pub format: BoxedFormat,
    pub shared_randomness: Vec<u8>,
    pub description: String,
    pub kind: EvidenceKind<Id, P>,
}

impl<Id: PartyId, P: Protocol<Id>> Debug for Evidence<Id, P> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "Evidence({:?}, round {}, {})", self.guilty, self.round, self.description)
    }
}

pub type Assoc<Id, P> = <<P as Protocol<Id>>::ProtocolError as ProtocolError<Id>>::AssociatedData;

impl<Id: PartyId, P: Protocol<Id>> Evidence<Id, P> {
    pub fn description(&self) -> String {
        self.description.clone()
    }

    pub fn verify(&self, assoc: &Assoc<Id, P>) -> Result<(), ProtocolValidationError> {
        let r = RoundId::new(self.round);
        match &self.kind {
            EvidenceKind::Echo(m) => Ok(P::verify_echo_broadcast_is_invalid(&self.format, &r, m)?),
            EvidenceKind::Normal(m) => Ok(P::verify_normal_broadcast_is_invalid(&self.format, &r, m)?),
            EvidenceKind::Direct(m) => Ok(P::verify_direct_message_is_invalid(&self.format, &r, m)?),
            EvidenceKind::Equivocation => Ok(()),
            EvidenceKind::Protocol { error, message, previous, echos } => error.verify_messages_constitute_error(
                &self.format,
                &self.guilty,
                &self.shared_randomness,
                assoc,
                message.clone(),
                previous.clone(),
                echos.clone(),
            ),
        }
    }

    /// `verify`, with panics caught
    pub fn proven(&self, assoc: &Assoc<Id, P>) -> Proven {
        match guarded(|| self.verify(assoc)) {
            Ok(Ok(())) => Proven::Yes,
            Ok(Err(ProtocolValidationError::InvalidEvidence(e))) => Proven::No(e),
            Ok(Err(ProtocolValidationError::Local(e))) => Proven::Local(e.0),
            Err(e) => Proven::Panic(e),
        }
    }

    /// Builds the evidence that `error` would refer to, from the messages `guilty` sent to `reporter`
    /// and the echo broadcasts of the other parties as `guilty` received them.
    pub fn protocol(
        format: &BoxedFormat,
        shared_randomness: &[u8],
        transcript: &Transcript<Id>,
        error: P::ProtocolError,
        guilty: &Id,
        reporter: &Id,
        round: u8,
    ) -> Option<Self> {
        let req = error.required_messages();
        let get = |r: u8, parts: &RequiredMessageParts| -> Option<ProtocolMessage> {
            let m = transcript.get(&(r, guilty.clone(), reporter.clone()))?;
            Some(ProtocolMessage {
                echo_broadcast: if parts.echo_broadcast { m.echo_broadcast.clone() } else { EchoBroadcast::none() },
                normal_broadcast: if parts.normal_broadcast {
                    m.normal_broadcast.clone()
                } else {
                    NormalBroadcast::none()
                },
                direct_message: if parts.direct_message { m.direct_message.clone() } else { DirectMessage::none() },
            })
        };
        let message = get(round, &req.this_round)?;
        let mut previous = BTreeMap::new();
        for (r, parts) in req.previous_rounds.unwrap_or_default() {
            previous.insert(r, get(r.num(), &parts)?);
        }
        let mut echos = BTreeMap::new();
        for r in req.combined_echos.unwrap_or_default() {
            let map: BTreeMap<Id, EchoBroadcast> = transcript
                .iter()
                .filter(|((rr, from, to), _)| *rr == r.num() && to == guilty && from != guilty)
                .map(|((_, from, _), m)| (from.clone(), m.echo_broadcast.clone()))
                .collect();
            echos.insert(r, map);
        }
        Some(Self {
            guilty: guilty.clone(),
            round,
            format: *format,
            shared_randomness: shared_randomness.into(),
            description: format!("Protocol error: {error}"),
            kind: EvidenceKind::Protocol { error, message, previous, echos },
        })
    }
}

pub type Transcript<Id> = BTreeMap<(u8, Id, Id), ProtocolMessage>;

pub struct PartyRun<Id: PartyId, P: Protocol<Id>> {
    pub outcome: Outcome<P::Result>,
    pub evidence: BTreeMap<Id, Evidence<Id, P>>,
    /// (round, blamed party, verdict), provable or not
    pub blamed: Vec<(u8, Id, Verdict)>,
    /// In which round it stopped, and whose messages were missing then.
    pub last_round: u8,
    pub missing: BTreeSet<Id>,
}

pub struct Run<Id: PartyId, P: Protocol<Id>> {
    pub parties: BTreeMap<Id, PartyRun<Id, P>>,
    pub transcript: Transcript<Id>,
    pub events: Vec<Event<Id>>,
    pub shared_randomness: Vec<u8>,
    pub format: BoxedFormat,
}

type RawEchos<Id> = BTreeMap<Id, Option<Vec<u8>>>;

enum Wire<Id> {
    Message(ProtocolMessage),
    /// The echo broadcasts the sender of this has received in the round
    Echos(RawEchos<Id>),
}

struct Party<Id: PartyId, P: Protocol<Id>> {
    round: Option<BoxedRound<Id, P>>,
    round_id: u8,
    info: Option<CommunicationInfo<Id>>,
    payloads: BTreeMap<Id, Payload>,
    artifacts: BTreeMap<Id, Artifact>,
    failed: BTreeSet<Id>,
    received: RawEchos<Id>,
    my_echo: Option<Vec<u8>>,
    echo_sent: bool,
    echo_from: BTreeMap<Id, RawEchos<Id>>,
    buffered: Vec<(u8, Id, Wire<Id>)>,
    run: PartyRun<Id, P>,
    done: bool,
    rng: Option<Box<dyn CryptoRngCore>>,
}

/// The parties that this one exchanges echos with.
fn echo_peers<Id: PartyId>(info: &CommunicationInfo<Id>) -> (BTreeSet<Id>, BTreeSet<Id>) {
    // (to, from)
    match &info.echo_round_participation {
        EchoRoundParticipation::Default => (info.message_destinations.clone(), info.message_destinations.clone()),
        EchoRoundParticipation::Send => (BTreeSet::new(), BTreeSet::new()),
        EchoRoundParticipation::Receive { echo_targets } => (echo_targets.clone(), echo_targets.clone()),
    }
}

impl Verdict {
    pub fn name(&self) -> &'static str {
        match self {
            Verdict::Ok => "ok",
            Verdict::Part { .. } => "part",
            Verdict::Protocol { .. } => "protocol",
            Verdict::Equivocation => "equivocation",
            Verdict::Local(_) => "local",
            Verdict::Unprovable(_) => "unprovable",
            Verdict::Panic(_) => "panic",
        }
    }
    pub fn text(&self) -> String {
        match self {
            Verdict::Ok | Verdict::Equivocation => String::new(),
            Verdict::Part { message, part } => format!("{part}: {message}"),
            Verdict::Protocol { description, .. } => description.clone(),
            Verdict::Local(e) | Verdict::Unprovable(e) | Verdict::Panic(e) => e.clone(),
        }
    }
}

/// `receive_message`, with panics caught; and the evidence it leads to.
fn receive<Id: PartyId, P: Protocol<Id>>(
    round: &BoxedRound<Id, P>,
    format: &BoxedFormat,
    shared_randomness: &[u8],
    transcript: &Transcript<Id>,
    from: &Id,
    to: &Id,
    m: &ProtocolMessage,
) -> (Verdict, Option<Payload>, Option<Evidence<Id, P>>) {
    let round_id = round.id().num();
    match guarded(|| round.receive_message(format, from, m.clone())) {
        Err(e) => (Verdict::Panic(e), None, None),
        Ok(Ok(payload)) => (Verdict::Ok, Some(payload), None),
        Ok(Err(ReceiveError::Local(e))) => (Verdict::Local(e.0), None, None),
        Ok(Err(ReceiveError::Unprovable(e))) => (Verdict::Unprovable(e), None, None),
        Ok(Err(ReceiveError::Part(e))) => {
            let kind = match e.part {
                "Echo broadcast" => EvidenceKind::Echo(m.echo_broadcast.clone()),
                "Normal broadcast" => EvidenceKind::Normal(m.normal_broadcast.clone()),
                _ => EvidenceKind::Direct(m.direct_message.clone()),
            };
            let ev = Evidence {
                guilty: from.clone(),
                round: round_id,
                format: *format,
                shared_randomness: shared_randomness.into(),
                description: format!("{} error: {}", e.part, e.message),
                kind,
            };
            (Verdict::Part { part: e.part, message: e.message }, None, Some(ev))
        }
        Ok(Err(ReceiveError::Protocol(e))) => {
            let verdict = Verdict::Protocol { description: format!("{e}"), debug: format!("{e:?}") };
            match guarded(|| Evidence::protocol(format, shared_randomness, transcript, e, from, to, round_id)) {
                Ok(ev) => (verdict, None, ev),
                Err(e) => (Verdict::Panic(e), None, None),
            }
        }
    }
}

pub fn run<Id: PartyId, EP: EntryPoint<Id>>(
    rng: &mut dyn CryptoRngCore,
    entry_points: BTreeMap<Id, EP>,
    shared_randomness: &[u8],
    format: &BoxedFormat,
    control: &mut dyn Control<Id>,
    assoc: Option<&Assoc<Id, EP::Protocol>>,
) -> Run<Id, EP::Protocol> {
    let mut events = Vec::new();
    let mut transcript = Transcript::new();
    let mut queue: Vec<(u8, Id, Id, Wire<Id>)> = Vec::new();
    let mut parties: BTreeMap<Id, Party<Id, EP::Protocol>> = BTreeMap::new();

    for (id, ep) in entry_points {
        let mut p = Party {
            round: None,
            round_id: 0,
            info: None,
            payloads: BTreeMap::new(),
            artifacts: BTreeMap::new(),
            failed: BTreeSet::new(),
            received: BTreeMap::new(),
            my_echo: None,
            echo_sent: false,
            echo_from: BTreeMap::new(),
            buffered: Vec::new(),
            run: PartyRun {
                outcome: Outcome::Stopped,
                evidence: BTreeMap::new(),
                blamed: Vec::new(),
                last_round: 0,
                missing: BTreeSet::new(),
            },
            done: false,
            rng: control.rng_for(&id),
        };
        let mut own = p.rng.take();
        let rng: &mut dyn CryptoRngCore = match &mut own {
            Some(r) => r.as_mut(),
            None => rng,
        };
        let started = guarded(|| ep.make_round(rng, shared_randomness, &id));
        let error = match &started {
            Ok(Ok(_)) => None,
            Ok(Err(e)) => Some(format!("local error: {e}")),
            Err(e) => Some(format!("panic: {e}")),
        };
        events.push(Event::Start { party: id.clone(), error });
        match started {
            Ok(Ok(round)) => start_round(rng, &id, &mut p, round, format, control, &mut queue, &mut transcript),
            Ok(Err(e)) => finish(&mut p, Outcome::LocalError(e.0)),
            Err(e) => finish(&mut p, Outcome::Panic(e)),
        }
        p.rng = own;
        parties.insert(id, p);
    }

    loop {
        // Let everybody who can make a step do so.
        let mut progress = true;
        while progress {
            progress = false;
            for (id, p) in parties.iter_mut() {
                let mut own = p.rng.take();
                let rng: &mut dyn CryptoRngCore = match &mut own {
                    Some(r) => r.as_mut(),
                    None => rng,
                };
                progress |= advance(rng, id, p, format, control, &mut queue, &mut transcript, &mut events, shared_randomness, assoc);
                p.rng = own;
            }
        }
        if queue.is_empty() {
            break;
        }
        let names: Vec<_> = queue
            .iter()
            .map(|(r, from, to, w)| (*r, from.clone(), to.clone(), matches!(w, Wire::Echos(_))))
            .collect();
        let idx = control.pick(&names).min(queue.len() - 1);
        let (round, from, to, wire) = queue.remove(idx);
        if let Some(p) = parties.get_mut(&to) {
            if !p.done {
                p.buffered.push((round, from, wire));
            }
        }
    }

    let parties = parties
        .into_iter()
        .map(|(id, mut p)| {
            if !p.done {
                if let Some(info) = &p.info {
                    p.run.missing = info
                        .expecting_messages_from
                        .iter()
                        .filter(|x| !p.payloads.contains_key(x) && !p.failed.contains(x))
                        .cloned()
                        .collect();
                }
            }
            (id, p.run)
        })
        .collect();
    Run { parties, transcript, events, shared_randomness: shared_randomness.into(), format: *format }
}

fn finish<Id: PartyId, P: Protocol<Id>>(p: &mut Party<Id, P>, outcome: Outcome<P::Result>) {
    p.run.outcome = outcome;
    p.done = true;
}

#[allow(clippy::too_many_arguments)]
fn start_round<Id: PartyId, P: Protocol<Id>>(
    rng: &mut dyn CryptoRngCore,
    id: &Id,
    p: &mut Party<Id, P>,
    round: BoxedRound<Id, P>,
    format: &BoxedFormat,
    control: &mut dyn Control<Id>,
    queue: &mut Vec<(u8, Id, Id, Wire<Id>)>,
    transcript: &mut Transcript<Id>,
) {
    p.payloads.clear();
    p.artifacts.clear();
    p.failed.clear();
    p.received.clear();
    p.echo_from.clear();
    p.echo_sent = false;
    let round_id = round.id().num();
    p.round_id = round_id;
    p.run.last_round = round_id;
    control.started(round_id, id, &|| format!("{round:?}"));
    let mut make = || -> Result<(), LocalError> {
        let info = round.communication_info();
        let eb = round.make_echo_broadcast(rng, format)?;
        let nb = round.make_normal_broadcast(rng, format)?;
        p.my_echo = eb.raw().map(|x| x.to_vec());
        for to in &info.message_destinations {
            let (dm, artifact) = round.make_direct_message(rng, format, to)?;
            if let Some(a) = artifact {
                p.artifacts.insert(to.clone(), a);
            }
            let mut m =
                ProtocolMessage { echo_broadcast: eb.clone(), normal_broadcast: nb.clone(), direct_message: dm };
            control.tamper(round_id, id, to, &mut m);
            transcript.insert((round_id, id.clone(), to.clone()), m.clone());
            queue.push((round_id, id.clone(), to.clone(), Wire::Message(m)));
        }
        p.info = Some(info);
        Ok(())
    };
    match guarded(&mut make) {
        Ok(Ok(())) => p.round = Some(round),
        Ok(Err(e)) => finish(p, Outcome::LocalError(e.0)),
        Err(e) => finish(p, Outcome::Panic(e)),
    }
}

/// Processes one buffered message, or finalizes the round. Returns whether anything happened.
#[allow(clippy::too_many_arguments)]
fn advance<Id: PartyId, P: Protocol<Id>>(
    rng: &mut dyn CryptoRngCore,
    id: &Id,
    p: &mut Party<Id, P>,
    format: &BoxedFormat,
    control: &mut dyn Control<Id>,
    queue: &mut Vec<(u8, Id, Id, Wire<Id>)>,
    transcript: &mut Transcript<Id>,
    events: &mut Vec<Event<Id>>,
    shared_randomness: &[u8],
    assoc: Option<&Assoc<Id, P>>,
) -> bool {
    if p.done || p.round.is_none() {
        return false;
    }
    let info = p.info.clone().expect("the round has started");
    let round_id = p.round_id;

    if let Some(pos) = p.buffered.iter().position(|(r, _, _)| *r == round_id) {
        let (_, from, wire) = p.buffered.remove(pos);
        match wire {
            Wire::Echos(map) => {
                p.echo_from.insert(from, map);
            }
            Wire::Message(m) => {
                if !info.expecting_messages_from.contains(&from)
                    || p.payloads.contains_key(&from)
                    || p.failed.contains(&from)
                {
                    return true;
                }
                let round = p.round.as_ref().expect("just checked");
                p.received.insert(from.clone(), m.echo_broadcast.raw().map(|x| x.to_vec()));
                for (idx, v) in control.variants(round_id, &from, id, &m).into_iter().enumerate() {
                    let key = (round_id, from.clone(), id.clone());
                    let sent = transcript.insert(key.clone(), v.clone()).expect("the message is in the transcript");
                    let (verdict, _, ev) = receive(round, format, shared_randomness, transcript, &from, id, &v);
                    let proven = match (&ev, assoc) {
                        (Some(ev), Some(assoc)) => ev.proven(assoc),
                        _ => Proven::None,
                    };
                    transcript.insert(key, sent);
                    control.probed(round_id, &from, id, idx, &verdict, &proven);
                }
                let mut m = m;
                control.misread(round_id, &from, id, &mut m);
                let (verdict, payload, ev) = receive(round, format, shared_randomness, transcript, &from, id, &m);
                if let Some(payload) = payload {
                    p.payloads.insert(from.clone(), payload);
                }
                if let Some(ev) = ev {
                    p.run.evidence.insert(from.clone(), ev);
                }
                match &verdict {
                    Verdict::Panic(e) => finish(p, Outcome::Panic(e.clone())),
                    Verdict::Local(e) => finish(p, Outcome::LocalError(e.clone())),
                    _ => {}
                }
                if !matches!(verdict, Verdict::Ok) {
                    p.failed.insert(from.clone());
                    p.run.blamed.push((round_id, from.clone(), verdict.clone()));
                }
                events.push(Event::Receive { party: id.clone(), round: round_id, from, verdict });
            }
        }
        return true;
    }

    // Is everything there?
    if p.payloads.len() + p.failed.len() < info.expecting_messages_from.len() {
        return false;
    }
    // Echo round, if anyone echo-broadcasts
    if !p.failed.is_empty() && (p.echo_sent || !control.reports_anyway(id)) {
        finish(p, Outcome::Stopped);
        return true;
    }
    let (echo_to, echo_from) = echo_peers(&info);
    let echoing = p.received.values().any(|x| x.is_some())
        || (p.my_echo.is_some() && matches!(info.echo_round_participation, EchoRoundParticipation::Default));
    if echoing && !matches!(info.echo_round_participation, EchoRoundParticipation::Send) {
        if !p.echo_sent {
            p.echo_sent = true;
            let mut all = p.received.clone();
            all.insert(id.clone(), p.my_echo.clone());
            for to in &echo_to {
                queue.push((round_id, id.clone(), to.clone(), Wire::Echos(all.clone())));
            }
            return true;
        }
        if !echo_from.iter().all(|x| p.echo_from.contains_key(x)) {
            return false;
        }
        let mut guilty = BTreeSet::new();
        for (echoer, map) in &p.echo_from {
            for (about, bytes) in map {
                let known = if about == id { Some(&p.my_echo) } else { p.received.get(about) };
                if let Some(known) = known {
                    if known != bytes && about != echoer && about != id {
                        guilty.insert(about.clone());
                    }
                }
            }
        }
        events.push(Event::Echo { party: id.clone(), round: round_id, ok: guilty.is_empty() });
        if !guilty.is_empty() {
            for g in guilty {
                p.run.blamed.push((round_id, g.clone(), Verdict::Equivocation));
                p.run.evidence.insert(
                    g.clone(),
                    Evidence {
                        guilty: g,
                        round: round_id,
                        format: *format,
                        shared_randomness: shared_randomness.into(),
                        description: "Echo error: mismatched broadcasts".into(),
                        kind: EvidenceKind::Equivocation,
                    },
                );
            }
            finish(p, Outcome::Stopped);
            return true;
        }
    }

    if !p.failed.is_empty() {
        finish(p, Outcome::Stopped);
        return true;
    }
    let round = p.round.take().expect("just checked");
    let payloads = core::mem::take(&mut p.payloads);
    let artifacts = core::mem::take(&mut p.artifacts);
    let ti = round.transition_info();
    let result = guarded(|| round.finalize(rng, payloads, artifacts));
    let next;
    match result {
        Err(e) => {
            next = format!("panic: {e}");
            finish(p, Outcome::Panic(e));
        }
        Ok(Err(e)) => {
            next = format!("local error: {e}");
            finish(p, Outcome::LocalError(e.0));
        }
        Ok(Ok(FinalizeOutcome::Result(r))) => {
            if ti.may_produce_result {
                next = "result".into();
                finish(p, Outcome::Result(r));
            } else {
                next = "local error: unexpected result".into();
                finish(p, Outcome::LocalError("a result from a non-terminating round".into()));
            }
        }
        Ok(Ok(FinalizeOutcome::AnotherRound(r))) => {
            next = format!("round {}", r.id().num());
            if !ti.children.contains(&r.id()) {
                finish(p, Outcome::LocalError(format!("unexpected transition {} -> {:?}", round_id, r.id())));
            } else {
                start_round(rng, id, p, r, format, control, queue, transcript);
            }
        }
    }
    events.push(Event::Finalize { party: id.clone(), round: round_id, next });
    true
}
