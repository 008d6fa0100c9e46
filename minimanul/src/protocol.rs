//! Protocol-level API (what `manul::protocol` offers to a protocol implementation).

use crate::{session::WireFormat, value};
use core::{
    any::Any,
    fmt::{self, Debug, Display},
};
use rand_core::CryptoRngCore;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub trait PartyId: 'static + Debug + Clone + Ord + Send + Sync + Serialize + DeserializeOwned {}
impl<T: 'static + Debug + Clone + Ord + Send + Sync + Serialize + DeserializeOwned> PartyId for T {}

#[derive(Debug, Clone)]
pub struct LocalError(pub String);
impl LocalError {
    pub fn new(message: impl Into<String>) -> Self {
        Self(message.into())
    }
}
impl Display for LocalError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for LocalError {}

#[derive(Debug, Clone, Copy)]
pub struct BoxedFormat {
    pub human_readable: bool,
}
impl BoxedFormat {
    pub fn new<F: WireFormat>() -> Self {
        Self { human_readable: F::HUMAN_READABLE }
    }
}

// ------------------------------------------------------------------ rounds

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct RoundId(u8);
impl RoundId {
    pub fn new(id: u8) -> Self {
        Self(id)
    }
    pub fn num(&self) -> u8 {
        self.0
    }
}
impl From<u8> for RoundId {
    fn from(x: u8) -> Self {
        Self(x)
    }
}
impl PartialEq<u8> for RoundId {
    fn eq(&self, rhs: &u8) -> bool {
        self.0 == *rhs
    }
}

#[derive(Debug, Clone)]
pub struct TransitionInfo {
    pub id: RoundId,
    pub parents: BTreeSet<RoundId>,
    pub siblings: BTreeSet<RoundId>,
    pub children: BTreeSet<RoundId>,
    pub may_produce_result: bool,
}
impl TransitionInfo {
    pub fn new_linear(n: u8) -> Self {
        Self {
            id: n.into(),
            parents: if n > 1 { [RoundId(n - 1)].into() } else { BTreeSet::new() },
            siblings: BTreeSet::new(),
            children: [RoundId(n + 1)].into(),
            may_produce_result: false,
        }
    }
    pub fn new_linear_terminating(n: u8) -> Self {
        Self { children: BTreeSet::new(), may_produce_result: true, ..Self::new_linear(n) }
    }
    pub fn with_children(self, children: BTreeSet<u8>) -> Self {
        let mut s = self;
        s.children.extend(children.into_iter().map(RoundId));
        s
    }
    pub fn with_siblings(self, siblings: BTreeSet<u8>) -> Self {
        Self { siblings: siblings.into_iter().map(RoundId).collect(), ..self }
    }
}
#[derive(Debug, Clone)]
pub enum EchoRoundParticipation<Id> {
    Default,
    Send,
    Receive { echo_targets: BTreeSet<Id> },
}

#[derive(Debug, Clone)]
pub struct CommunicationInfo<Id> {
    pub message_destinations: BTreeSet<Id>,
    pub expecting_messages_from: BTreeSet<Id>,
    pub echo_round_participation: EchoRoundParticipation<Id>,
}
impl<Id: PartyId> CommunicationInfo<Id> {
    pub fn regular(other: &BTreeSet<Id>) -> Self {
        Self {
            message_destinations: other.clone(),
            expecting_messages_from: other.clone(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
    pub fn none() -> Self {
        Self::regular(&BTreeSet::new())
    }
}

pub struct Payload(pub Box<dyn Any>);
impl Debug for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Payload")
    }
}
impl Payload {
    pub fn new<T: 'static>(x: T) -> Self {
        Self(Box::new(x))
    }
    pub fn empty() -> Self {
        Self::new(())
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        self.0.downcast::<T>().map(|x| *x).map_err(|_| LocalError::new("Payload: failed to downcast"))
    }
}
pub struct Artifact(pub Box<dyn Any>);
impl Debug for Artifact {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Artifact")
    }
}
impl Artifact {
    pub fn new<T: 'static>(x: T) -> Self {
        Self(Box::new(x))
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        self.0.downcast::<T>().map(|x| *x).map_err(|_| LocalError::new("Artifact: failed to downcast"))
    }
}

pub enum FinalizeOutcome<Id: PartyId, P: Protocol<Id>> {
    AnotherRound(BoxedRound<Id, P>),
    Result(P::Result),
}

pub trait EntryPoint<Id: PartyId> {
    type Protocol: Protocol<Id>;
    fn entry_round_id() -> RoundId {
        RoundId(1)
    }
    fn make_round(
        self,
        rng: &mut dyn CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError>;
}

pub trait Round<Id: PartyId>: 'static + Debug {
    type Protocol: Protocol<Id>;
    fn transition_info(&self) -> TransitionInfo;
    fn communication_info(&self) -> CommunicationInfo<Id>;
    fn make_echo_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<EchoBroadcast, LocalError> {
        Ok(EchoBroadcast::none())
    }
    fn make_normal_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<NormalBroadcast, LocalError> {
        Ok(NormalBroadcast::none())
    }
    fn make_direct_message(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
        _destination: &Id,
    ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
        Ok((DirectMessage::none(), None))
    }
    fn receive_message(
        &self,
        format: &BoxedFormat,
        from: &Id,
        message: ProtocolMessage,
    ) -> Result<Payload, ReceiveError<Id, Self::Protocol>>;
    fn finalize(
        self: Box<Self>,
        rng: &mut dyn CryptoRngCore,
        payloads: BTreeMap<Id, Payload>,
        artifacts: BTreeMap<Id, Artifact>,
    ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>;
}

trait AnyRound<Id: PartyId, P: Protocol<Id>>: Round<Id, Protocol = P> {
    fn as_any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}
impl<Id: PartyId, P: Protocol<Id>, R: Round<Id, Protocol = P>> AnyRound<Id, P> for R {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}

pub struct BoxedRound<Id: PartyId, P: Protocol<Id>>(Box<dyn AnyRound<Id, P>>);
impl<Id: PartyId, P: Protocol<Id>> Debug for BoxedRound<Id, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<Id: PartyId, P: Protocol<Id>> BoxedRound<Id, P> {
    pub fn new_dynamic<R: Round<Id, Protocol = P>>(round: R) -> Self {
        Self(Box::new(round))
    }
    pub fn id(&self) -> RoundId {
        self.0.transition_info().id
    }
    pub fn transition_info(&self) -> TransitionInfo {
        self.0.transition_info()
    }
    pub fn communication_info(&self) -> CommunicationInfo<Id> {
        self.0.communication_info()
    }
    pub fn downcast_ref<R: Round<Id>>(&self) -> Result<&R, LocalError> {
        self.0.as_any().downcast_ref::<R>().ok_or_else(|| LocalError::new("Round: failed to downcast"))
    }
    pub fn downcast<R: Round<Id>>(self) -> Result<R, LocalError> {
        self.0.into_any().downcast::<R>().map(|x| *x).map_err(|_| LocalError::new("Round: failed to downcast"))
    }
    pub fn make_echo_broadcast(
        &self,
        rng: &mut dyn CryptoRngCore,
        format: &BoxedFormat,
    ) -> Result<EchoBroadcast, LocalError> {
        self.0.make_echo_broadcast(rng, format)
    }
    pub fn make_normal_broadcast(
        &self,
        rng: &mut dyn CryptoRngCore,
        format: &BoxedFormat,
    ) -> Result<NormalBroadcast, LocalError> {
        self.0.make_normal_broadcast(rng, format)
    }
    pub fn make_direct_message(
        &self,
        rng: &mut dyn CryptoRngCore,
        format: &BoxedFormat,
        destination: &Id,
    ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
        self.0.make_direct_message(rng, format, destination)
    }
    pub fn receive_message(
        &self,
        format: &BoxedFormat,
        from: &Id,
        message: ProtocolMessage,
    ) -> Result<Payload, ReceiveError<Id, P>> {
        self.0.receive_message(format, from, message)
    }
    pub fn finalize(
        self,
        rng: &mut dyn CryptoRngCore,
        payloads: BTreeMap<Id, Payload>,
        artifacts: BTreeMap<Id, Artifact>,
    ) -> Result<FinalizeOutcome<Id, P>, LocalError> {
        self.0.finalize(rng, payloads, artifacts)
    }
}

// ------------------------------------------------------------------ messages

pub trait ProtocolMessagePart: Sized {
    fn raw(&self) -> Option<&[u8]>;
    fn from_raw(raw: Option<Vec<u8>>) -> Self;

    fn new<T: Serialize>(format: &BoxedFormat, x: T) -> Result<Self, LocalError> {
        let v = value::to_value(&x, format.human_readable).map_err(|e| LocalError::new(e.0))?;
        Ok(Self::from_raw(Some(v.to_bytes())))
    }
    fn none() -> Self {
        Self::from_raw(None)
    }
    fn is_none(&self) -> bool {
        self.raw().is_none()
    }
    fn assert_is_none(&self) -> Result<(), PartError> {
        if self.raw().is_some() {
            return Err(PartError {
                part: Self::NAME,
                message: "The payload was expected to be `None`, but contains a message".into(),
            });
        }
        Ok(())
    }
    fn deserialize<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<T, PartError> {
        self.try_deserialize(format).map_err(|e| PartError {
            part: Self::NAME,
            message: match e {
                None => "The payload is `None` and cannot be deserialized".into(),
                Some(e) => format!("Deserialization error: {e}"),
            },
        })
    }
    fn try_deserialize<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<T, Option<String>> {
        let raw = self.raw().ok_or(None)?;
        let v = value::Value::from_bytes(raw).map_err(|e| Some(e.0))?;
        value::from_value(&v, format.human_readable).map_err(|e| Some(e.0))
    }
    /// Succeeds iff this part cannot be deserialized into `T`.
    fn verify_is_not<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<(), MessageValidationError> {
        match self.try_deserialize::<T>(format) {
            Ok(_) => Err(MessageValidationError::InvalidEvidence("Message deserialized successfully".into())),
            Err(_) => Ok(()),
        }
    }
    /// Succeeds iff there is a message here.
    fn verify_is_some(&self) -> Result<(), MessageValidationError> {
        match self.raw() {
            Some(_) => Ok(()),
            None => Err(MessageValidationError::InvalidEvidence("Payload is `None`".into())),
        }
    }
    const NAME: &'static str;
}

macro_rules! part {
    ($t:ident, $name:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $t(Option<Vec<u8>>);
        impl ProtocolMessagePart for $t {
            const NAME: &'static str = $name;
            fn raw(&self) -> Option<&[u8]> {
                self.0.as_deref()
            }
            fn from_raw(raw: Option<Vec<u8>>) -> Self {
                Self(raw)
            }
        }
    };
}
part!(EchoBroadcast, "Echo broadcast");
part!(NormalBroadcast, "Normal broadcast");
part!(DirectMessage, "Direct message");

#[derive(Debug, Clone)]
pub struct PartError {
    pub part: &'static str,
    pub message: String,
}

#[derive(Debug, Clone)]
pub struct ProtocolMessage {
    pub echo_broadcast: EchoBroadcast,
    pub normal_broadcast: NormalBroadcast,
    pub direct_message: DirectMessage,
}

// ------------------------------------------------------------------ errors

#[derive(Debug, Clone)]
pub enum MessageValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for MessageValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}

#[derive(Debug, Clone)]
pub enum ProtocolValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for ProtocolValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}
impl From<PartError> for ProtocolValidationError {
    fn from(e: PartError) -> Self {
        Self::InvalidEvidence(format!("{} error: {}", e.part, e.message))
    }
}
impl From<MessageValidationError> for ProtocolValidationError {
    fn from(e: MessageValidationError) -> Self {
        match e {
            MessageValidationError::Local(e) => Self::Local(e),
            MessageValidationError::InvalidEvidence(e) => Self::InvalidEvidence(e),
        }
    }
}

#[derive(Debug)]
pub enum ReceiveError<Id: PartyId, P: Protocol<Id>> {
    Local(LocalError),
    Part(PartError),
    Protocol(P::ProtocolError),
    Unprovable(String),
}
impl<Id: PartyId, P: Protocol<Id>> ReceiveError<Id, P> {
    pub fn local(message: impl Into<String>) -> Self {
        Self::Local(LocalError::new(message))
    }
    pub fn unprovable(message: impl Into<String>) -> Self {
        Self::Unprovable(message.into())
    }
    pub fn protocol(error: P::ProtocolError) -> Self {
        Self::Protocol(error)
    }
}
impl<Id: PartyId, P: Protocol<Id>> From<LocalError> for ReceiveError<Id, P> {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}
impl<Id: PartyId, P: Protocol<Id>> From<PartError> for ReceiveError<Id, P> {
    fn from(e: PartError) -> Self {
        Self::Part(e)
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct RequiredMessageParts {
    pub echo_broadcast: bool,
    pub normal_broadcast: bool,
    pub direct_message: bool,
}
impl RequiredMessageParts {
    pub fn echo_broadcast() -> Self {
        Self { echo_broadcast: true, ..Default::default() }
    }
    pub fn normal_broadcast() -> Self {
        Self { normal_broadcast: true, ..Default::default() }
    }
    pub fn direct_message() -> Self {
        Self { direct_message: true, ..Default::default() }
    }
    pub fn and_echo_broadcast(&self) -> Self {
        Self { echo_broadcast: true, ..*self }
    }
    pub fn and_normal_broadcast(&self) -> Self {
        Self { normal_broadcast: true, ..*self }
    }
    pub fn and_direct_message(&self) -> Self {
        Self { direct_message: true, ..*self }
    }
}

#[derive(Debug, Clone)]
pub struct RequiredMessages {
    pub this_round: RequiredMessageParts,
    pub previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
    pub combined_echos: Option<BTreeSet<RoundId>>,
}
impl RequiredMessages {
    pub fn new(
        this_round: RequiredMessageParts,
        previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
        combined_echos: Option<BTreeSet<RoundId>>,
    ) -> Self {
        Self { this_round, previous_rounds, combined_echos }
    }
}

pub trait ProtocolError<Id>: Display + Debug + Clone + Serialize + DeserializeOwned {
    type AssociatedData: Debug;
    fn required_messages(&self) -> RequiredMessages;
    #[allow(clippy::too_many_arguments)]
    fn verify_messages_constitute_error(
        &self,
        format: &BoxedFormat,
        guilty_party: &Id,
        shared_randomness: &[u8],
        associated_data: &Self::AssociatedData,
        message: ProtocolMessage,
        previous_messages: BTreeMap<RoundId, ProtocolMessage>,
        combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
    ) -> Result<(), ProtocolValidationError>;
}

pub trait Protocol<Id>: 'static + Sized + Debug {
    type Result: 'static + Debug;
    type ProtocolError: ProtocolError<Id>;
    fn verify_direct_message_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &DirectMessage,
    ) -> Result<(), MessageValidationError>;
    fn verify_echo_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &EchoBroadcast,
    ) -> Result<(), MessageValidationError>;
    fn verify_normal_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &NormalBroadcast,
    ) -> Result<(), MessageValidationError>;
}
