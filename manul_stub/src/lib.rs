//! Stand-in for the `manul` crate (a git dependency, absent offline): the types a protocol is written
//! against, with messages carried as JSON text.
#![allow(clippy::all)]
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Display};

use rand_core::CryptoRngCore;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub mod protocol {
    pub use super::*;
}
pub mod session {
    pub use super::LocalError;
}
pub mod utils {
    pub use super::SerializableMap;
}

macro_rules! error {
    ($n: ident) => {
        #[derive(Debug, Clone)]
        pub struct $n(pub String);
        impl $n {
            pub fn new(s: impl Into<String>) -> Self {
                Self(s.into())
            }
        }
        impl Display for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(&self.0)
            }
        }
        impl std::error::Error for $n {}
    };
}
error!(LocalError);
error!(MessageError);

#[derive(Debug, Clone)]
pub enum MessageValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for MessageValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}

#[derive(Debug, Clone)]
pub enum ProtocolValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for ProtocolValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}
impl From<MessageError> for ProtocolValidationError {
    fn from(e: MessageError) -> Self {
        Self::InvalidEvidence(e.0)
    }
}

pub enum ReceiveError<Id: PartyId, P: Protocol<Id>> {
    Local(LocalError),
    Message(MessageError),
    Protocol(P::ProtocolError),
    #[doc(hidden)]
    Never(std::marker::PhantomData<Id>),
}
impl<Id: PartyId, P: Protocol<Id>> ReceiveError<Id, P> {
    pub fn protocol(e: P::ProtocolError) -> Self {
        Self::Protocol(e)
    }
    pub fn local(s: impl Into<String>) -> Self {
        Self::Local(LocalError(s.into()))
    }
}
impl<Id: PartyId, P: Protocol<Id>> From<LocalError> for ReceiveError<Id, P> {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}
impl<Id: PartyId, P: Protocol<Id>> From<MessageError> for ReceiveError<Id, P> {
    fn from(e: MessageError) -> Self {
        Self::Message(e)
    }
}

pub trait PartyId: 'static + Debug + Clone + Ord + Send + Sync + Serialize + DeserializeOwned {}
impl<T: 'static + Debug + Clone + Ord + Send + Sync + Serialize + DeserializeOwned> PartyId for T {}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct RoundId(u8);
impl RoundId {
    pub fn new(n: u8) -> Self {
        Self(n)
    }
    pub fn number(&self) -> u8 {
        self.0
    }
}
impl From<u8> for RoundId {
    fn from(n: u8) -> Self {
        Self(n)
    }
}
impl PartialEq<u8> for RoundId {
    fn eq(&self, o: &u8) -> bool {
        self.0 == *o
    }
}

#[derive(Debug, Clone)]
pub struct TransitionInfo {
    pub id: RoundId,
    pub parents: BTreeSet<RoundId>,
    pub siblings: BTreeSet<RoundId>,
    pub children: BTreeSet<RoundId>,
    pub may_produce_result: bool,
}
impl TransitionInfo {
    pub fn new_linear(n: u8) -> Self {
        Self {
            id: n.into(),
            parents: if n > 1 { [RoundId(n - 1)].into() } else { [].into() },
            siblings: [].into(),
            children: [RoundId(n + 1)].into(),
            may_produce_result: false,
        }
    }
    pub fn new_linear_terminating(n: u8) -> Self {
        Self { children: [].into(), may_produce_result: true, ..Self::new_linear(n) }
    }
    pub fn with_children(self, c: BTreeSet<u8>) -> Self {
        Self { children: self.children.into_iter().chain(c.into_iter().map(RoundId)).collect(), ..self }
    }
    pub fn with_siblings(self, c: BTreeSet<u8>) -> Self {
        Self { siblings: self.siblings.into_iter().chain(c.into_iter().map(RoundId)).collect(), ..self }
    }
}

#[derive(Debug, Clone)]
pub enum EchoRoundParticipation<Id> {
    Default,
    Send,
    Receive { echo_targets: BTreeSet<Id> },
}

#[derive(Debug, Clone)]
pub struct CommunicationInfo<Id> {
    pub message_destinations: BTreeSet<Id>,
    pub expecting_messages_from: BTreeSet<Id>,
    pub echo_round_participation: EchoRoundParticipation<Id>,
}
impl<Id: PartyId> CommunicationInfo<Id> {
    pub fn regular(ids: &BTreeSet<Id>) -> Self {
        Self {
            message_destinations: ids.clone(),
            expecting_messages_from: ids.clone(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
}

/// JSON text.
#[derive(Debug, Clone)]
pub struct BoxedFormat;

pub trait ProtocolMessagePart: Sized {
    fn none() -> Self;
    fn wrap(s: Option<String>) -> Self;
    fn text(&self) -> Option<&str>;

    fn new<T: Serialize>(_format: &BoxedFormat, m: T) -> Result<Self, LocalError> {
        serde_json::to_string(&m).map(|s| Self::wrap(Some(s))).map_err(|e| LocalError(e.to_string()))
    }
    fn is_none(&self) -> bool {
        self.text().is_none()
    }
    fn assert_is_none(&self) -> Result<(), MessageError> {
        if self.is_none() { Ok(()) } else { Err(MessageError("the payload was expected to be `None`".into())) }
    }
    fn verify_is_some(&self) -> Result<(), MessageValidationError> {
        if self.is_none() {
            Err(MessageValidationError::InvalidEvidence("the payload is empty".into()))
        } else {
            Ok(())
        }
    }
    fn verify_is_not<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<(), MessageValidationError> {
        if self.deserialize::<T>(format).is_err() {
            Ok(())
        } else {
            Err(MessageValidationError::InvalidEvidence("the message deserializes correctly".into()))
        }
    }
    fn deserialize<T: for<'de> Deserialize<'de>>(&self, _format: &BoxedFormat) -> Result<T, MessageError> {
        let s = self.text().ok_or_else(|| MessageError("the payload is empty".into()))?;
        serde_json::from_str(s).map_err(|e| MessageError(e.to_string()))
    }
}

macro_rules! part {
    ($n: ident) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $n(pub Option<String>);
        impl ProtocolMessagePart for $n {
            fn none() -> Self {
                Self(None)
            }
            fn wrap(s: Option<String>) -> Self {
                Self(s)
            }
            fn text(&self) -> Option<&str> {
                self.0.as_deref()
            }
        }
    };
}
part!(EchoBroadcast);
part!(NormalBroadcast);
part!(DirectMessage);

#[derive(Debug, Clone)]
pub struct ProtocolMessage {
    pub echo_broadcast: EchoBroadcast,
    pub normal_broadcast: NormalBroadcast,
    pub direct_message: DirectMessage,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct RequiredMessageParts {
    pub echo_broadcast: bool,
    pub normal_broadcast: bool,
    pub direct_message: bool,
}
impl RequiredMessageParts {
    pub fn echo_broadcast() -> Self {
        Self { echo_broadcast: true, normal_broadcast: false, direct_message: false }
    }
    pub fn normal_broadcast() -> Self {
        Self { echo_broadcast: false, normal_broadcast: true, direct_message: false }
    }
    pub fn direct_message() -> Self {
        Self { echo_broadcast: false, normal_broadcast: false, direct_message: true }
    }
    pub fn and_echo_broadcast(self) -> Self {
        Self { echo_broadcast: true, ..self }
    }
    pub fn and_normal_broadcast(self) -> Self {
        Self { normal_broadcast: true, ..self }
    }
    pub fn and_direct_message(self) -> Self {
        Self { direct_message: true, ..self }
    }
}

#[derive(Debug, Clone)]
pub struct RequiredMessages {
    pub this_round: RequiredMessageParts,
    pub previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
    pub combined_echos: Option<BTreeSet<RoundId>>,
}
impl RequiredMessages {
    pub fn new(
        this_round: RequiredMessageParts,
        previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
        combined_echos: Option<BTreeSet<RoundId>>,
    ) -> Self {
        Self { this_round, previous_rounds, combined_echos }
    }
}

pub trait ProtocolError<Id>: Display + Debug + Clone {
    type AssociatedData: Debug;
    fn required_messages(&self) -> RequiredMessages;
    fn verify_messages_constitute_error(
        &self,
        format: &BoxedFormat,
        guilty_party: &Id,
        shared_randomness: &[u8],
        associated_data: &Self::AssociatedData,
        message: ProtocolMessage,
        previous_messages: BTreeMap<RoundId, ProtocolMessage>,
        combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
    ) -> Result<(), ProtocolValidationError>;
}

pub trait Protocol<Id>: 'static {
    type Result;
    type ProtocolError: ProtocolError<Id>;
    fn verify_direct_message_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &DirectMessage,
    ) -> Result<(), MessageValidationError>;
    fn verify_echo_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &EchoBroadcast,
    ) -> Result<(), MessageValidationError>;
    fn verify_normal_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &NormalBroadcast,
    ) -> Result<(), MessageValidationError>;
}

pub struct Payload(Box<dyn Any>);
pub struct Artifact(Box<dyn Any>);
macro_rules! any {
    ($n: ident) => {
        impl $n {
            pub fn new<T: 'static>(x: T) -> Self {
                Self(Box::new(x))
            }
            pub fn empty() -> Self {
                Self::new(())
            }
            pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
                self.0.downcast::<T>().map(|x| *x).map_err(|_| LocalError("unexpected payload type".into()))
            }
            pub fn downcast_ref<T: 'static>(&self) -> Result<&T, LocalError> {
                self.0.downcast_ref::<T>().ok_or_else(|| LocalError("unexpected payload type".into()))
            }
        }
    };
}
any!(Payload);
any!(Artifact);

pub enum FinalizeOutcome<Id: PartyId, P: Protocol<Id>> {
    AnotherRound(BoxedRound<Id, P>),
    Result(P::Result),
}

pub trait Round<Id: PartyId>: 'static {
    type Protocol: Protocol<Id>;
    fn transition_info(&self) -> TransitionInfo;
    fn communication_info(&self) -> CommunicationInfo<Id>;
    fn make_echo_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<EchoBroadcast, LocalError> {
        Ok(EchoBroadcast::none())
    }
    fn make_normal_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<NormalBroadcast, LocalError> {
        Ok(NormalBroadcast::none())
    }
    fn make_direct_message(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
        _destination: &Id,
    ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
        Ok((DirectMessage::none(), None))
    }
    fn receive_message(
        &self,
        format: &BoxedFormat,
        from: &Id,
        message: ProtocolMessage,
    ) -> Result<Payload, ReceiveError<Id, Self::Protocol>>;
    fn finalize(
        self: Box<Self>,
        rng: &mut dyn CryptoRngCore,
        payloads: BTreeMap<Id, Payload>,
        artifacts: BTreeMap<Id, Artifact>,
    ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>;
}

pub struct BoxedRound<Id: PartyId, P: Protocol<Id>>(pub Box<dyn Round<Id, Protocol = P>>);
impl<Id: PartyId, P: Protocol<Id>> BoxedRound<Id, P> {
    pub fn new_dynamic<R: Round<Id, Protocol = P>>(r: R) -> Self {
        Self(Box::new(r))
    }
}

pub trait EntryPoint<Id: PartyId>: 'static {
    type Protocol: Protocol<Id>;
    fn entry_round_id() -> RoundId;
    fn make_round(
        self,
        rng: &mut dyn CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError>;
}

/// A map that serializes as a list of pairs.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SerializableMap<K: Ord, V>(BTreeMap<K, V>);
impl<K: Ord, V> From<BTreeMap<K, V>> for SerializableMap<K, V> {
    fn from(m: BTreeMap<K, V>) -> Self {
        Self(m)
    }
}
impl<K: Ord, V> From<SerializableMap<K, V>> for BTreeMap<K, V> {
    fn from(m: SerializableMap<K, V>) -> Self {
        m.0
    }
}
impl<K: Ord, V> std::ops::Deref for SerializableMap<K, V> {
    type Target = BTreeMap<K, V>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K: Ord, V> std::ops::DerefMut for SerializableMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K: Ord + Serialize, V: Serialize> Serialize for SerializableMap<K, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter())
    }
}
impl<'de, K: Ord + Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for SerializableMap<K, V> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<(K, V)>::deserialize(d)?;
        let n = v.len();
        let m: BTreeMap<K, V> = v.into_iter().collect();
        if m.len() != n {
            return Err(serde::de::Error::custom("duplicate key"));
        }
        Ok(Self(m))
    }
}
