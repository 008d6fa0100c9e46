//! A small stand-in for `manul` (the protocol framework synedrion is written against), which is not
//! available offline. It has the API subset synedrion uses, plus a scheduler-controlled, tamperable
//! runner ([`sim`]) for conformance checking.

pub mod value;
pub use signature;

pub mod protocol;
pub mod sim;
pub mod heap;
pub mod kit;

pub mod session {
    pub use crate::protocol::LocalError;
    use core::fmt::Debug;
    use serde::{Deserialize, Serialize};

    #[derive(Debug, Clone)]
    pub struct DeserializationError(pub String);

    pub trait WireFormat: 'static + Debug {
        const HUMAN_READABLE: bool;
        fn serialize<T: Serialize>(x: T) -> Result<Box<[u8]>, LocalError> {
            let v = crate::value::to_value(&x, Self::HUMAN_READABLE).map_err(|e| LocalError::new(e.0))?;
            Ok(v.to_bytes().into())
        }
        fn deserialize<T: for<'de> Deserialize<'de>>(bytes: &[u8]) -> Result<T, DeserializationError> {
            let v = crate::value::Value::from_bytes(bytes).map_err(|e| DeserializationError(e.0))?;
            crate::value::from_value(&v, Self::HUMAN_READABLE).map_err(|e| DeserializationError(e.0))
        }
    }

    pub trait SessionParameters: 'static + Debug {
        type Signer: Debug + signature::Keypair<VerifyingKey = Self::Verifier>;
        type Verifier: crate::protocol::PartyId;
        type WireFormat: WireFormat;
    }
}

pub mod utils {
    use core::{fmt, ops::Deref};
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::collections::BTreeMap;

    /// A map that is serialized as a list of pairs (as in `manul`), so that any key type works.
    /// Duplicate keys are rejected.
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct SerializableMap<K, V>(BTreeMap<K, V>);

    impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for SerializableMap<K, V> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<K, V> Deref for SerializableMap<K, V> {
        type Target = BTreeMap<K, V>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K, V> core::ops::DerefMut for SerializableMap<K, V> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K, V> From<BTreeMap<K, V>> for SerializableMap<K, V> {
        fn from(m: BTreeMap<K, V>) -> Self {
            Self(m)
        }
    }
    impl<K, V> From<SerializableMap<K, V>> for BTreeMap<K, V> {
        fn from(m: SerializableMap<K, V>) -> Self {
            m.0
        }
    }
    impl<K: Ord, V> FromIterator<(K, V)> for SerializableMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
            Self(iter.into_iter().collect())
        }
    }
    impl<K, V> IntoIterator for SerializableMap<K, V> {
        type Item = (K, V);
        type IntoIter = std::collections::btree_map::IntoIter<K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<K: Serialize, V: Serialize> Serialize for SerializableMap<K, V> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_seq(self.0.iter())
        }
    }
    impl<'de, K: Deserialize<'de> + Ord, V: Deserialize<'de>> Deserialize<'de> for SerializableMap<K, V> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let list = Vec::<(K, V)>::deserialize(d)?;
            let mut map = BTreeMap::new();
            for (k, v) in list {
                if map.insert(k, v).is_some() {
                    return Err(serde::de::Error::custom("duplicate key"));
                }
            }
            Ok(Self(map))
        }
    }
}

pub mod dev {
    use crate::{
        protocol::*,
        session::{SessionParameters, WireFormat},
        sim,
    };
    use core::{fmt, marker::PhantomData};
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;

    #[derive(Debug, Clone, Copy)]
    pub struct BinaryFormat;
    impl WireFormat for BinaryFormat {
        const HUMAN_READABLE: bool = false;
    }
    #[derive(Debug, Clone, Copy)]
    pub struct HumanReadableFormat;
    impl WireFormat for HumanReadableFormat {
        const HUMAN_READABLE: bool = true;
    }

    #[derive(Debug, Clone, Copy)]
    pub struct TestSigner(u8);
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
    pub struct TestVerifier(pub u8);
    impl fmt::Debug for TestVerifier {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Verifier({})", self.0)
        }
    }
    impl TestSigner {
        pub fn new(id: u8) -> Self {
            Self(id)
        }
    }
    impl signature::Keypair for TestSigner {
        type VerifyingKey = TestVerifier;
        fn verifying_key(&self) -> TestVerifier {
            TestVerifier(self.0)
        }
    }

    #[derive(Debug, Clone, Copy)]
    pub struct TestSessionParams<F>(PhantomData<F>);
    impl<F: WireFormat> SessionParameters for TestSessionParams<F> {
        type Signer = TestSigner;
        type Verifier = TestVerifier;
        type WireFormat = F;
    }

    pub struct Report<Id: PartyId, P: Protocol<Id>> {
        pub provable_errors: BTreeMap<Id, sim::Evidence<Id, P>>,
        pub outcome: sim::Outcome<P::Result>,
    }
    impl<Id: PartyId, P: Protocol<Id>> fmt::Debug for Report<Id, P> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_struct("Report").field("outcome", &self.outcome.class()).finish()
        }
    }

    #[derive(Debug)]
    pub struct ExecutionResult<P: Protocol<SP::Verifier>, SP: SessionParameters> {
        pub reports: BTreeMap<SP::Verifier, Report<SP::Verifier, P>>,
    }

    impl<P: Protocol<SP::Verifier>, SP: SessionParameters> ExecutionResult<P, SP> {
        pub fn results(self) -> Result<BTreeMap<SP::Verifier, P::Result>, String> {
            self.reports
                .into_iter()
                .map(|(id, r)| match r.outcome {
                    sim::Outcome::Result(x) => Ok((id, x)),
                    other => Err(format!("{id:?}: {:?}", other.class())),
                })
                .collect()
        }
    }

    pub fn run_sync<EP, SP>(
        rng: &mut impl rand_core::CryptoRngCore,
        entry_points: Vec<(SP::Signer, EP)>,
    ) -> Result<ExecutionResult<EP::Protocol, SP>, LocalError>
    where
        EP: EntryPoint<SP::Verifier>,
        SP: SessionParameters,
    {
        use signature::Keypair;
        let mut randomness = [0u8; 32];
        rng.fill_bytes(&mut randomness);
        let eps = entry_points.into_iter().map(|(s, ep)| (s.verifying_key(), ep)).collect();
        let run = sim::run::<SP::Verifier, EP>(
            rng,
            eps,
            &randomness,
            &BoxedFormat::new::<SP::WireFormat>(),
            &mut sim::NoControl,
            None,
        );
        let mut reports = BTreeMap::new();
        for (id, p) in run.parties {
            match &p.outcome {
                sim::Outcome::LocalError(e) => return Err(LocalError::new(e.clone())),
                sim::Outcome::Panic(e) => panic!("{e}"),
                _ => {}
            }
            reports.insert(id, Report { provable_errors: p.evidence, outcome: p.outcome });
        }
        Ok(ExecutionResult { reports })
    }
}

pub mod combinators {
    pub mod misbehave {
        use crate::protocol::*;
        use core::fmt::Debug;
        use rand_core::CryptoRngCore;
        use std::{collections::BTreeMap, marker::PhantomData};

        pub trait Behavior: 'static + Debug + Send + Sync {}
        impl<T: 'static + Debug + Send + Sync> Behavior for T {}

        pub enum FinalizeOverride<Id: PartyId, P: Protocol<Id>> {
            UseDefault {
                round: BoxedRound<Id, P>,
                payloads: BTreeMap<Id, Payload>,
                artifacts: BTreeMap<Id, Artifact>,
            },
            Override(FinalizeOutcome<Id, P>),
        }

        #[allow(unused_variables)]
        pub trait Misbehaving<Id: PartyId, B: Behavior>: 'static {
            type EntryPoint: EntryPoint<Id> + Debug;

            fn modify_echo_broadcast(
                rng: &mut dyn CryptoRngCore,
                round: &BoxedRound<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>,
                behavior: &B,
                format: &BoxedFormat,
                echo_broadcast: EchoBroadcast,
            ) -> Result<EchoBroadcast, LocalError> {
                Ok(echo_broadcast)
            }

            fn modify_normal_broadcast(
                rng: &mut dyn CryptoRngCore,
                round: &BoxedRound<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>,
                behavior: &B,
                format: &BoxedFormat,
                normal_broadcast: NormalBroadcast,
            ) -> Result<NormalBroadcast, LocalError> {
                Ok(normal_broadcast)
            }

            fn modify_direct_message(
                rng: &mut dyn CryptoRngCore,
                round: &BoxedRound<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>,
                behavior: &B,
                format: &BoxedFormat,
                destination: &Id,
                direct_message: DirectMessage,
                artifact: Option<Artifact>,
            ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
                Ok((direct_message, artifact))
            }

            fn override_finalize(
                rng: &mut dyn CryptoRngCore,
                round: BoxedRound<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>,
                behavior: &B,
                payloads: BTreeMap<Id, Payload>,
                artifacts: BTreeMap<Id, Artifact>,
            ) -> Result<FinalizeOverride<Id, <Self::EntryPoint as EntryPoint<Id>>::Protocol>, LocalError> {
                Ok(FinalizeOverride::UseDefault { round, payloads, artifacts })
            }
        }

        pub struct MisbehavingEntryPoint<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> {
            inner: M::EntryPoint,
            behavior: Option<B>,
            phantom: PhantomData<(Id, fn() -> M)>,
        }

        impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> Debug for MisbehavingEntryPoint<Id, B, M> {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                self.inner.fmt(f)
            }
        }
        impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> MisbehavingEntryPoint<Id, B, M> {
            pub fn new(inner: M::EntryPoint, behavior: Option<B>) -> Self {
                Self { inner, behavior, phantom: PhantomData }
            }
        }

        impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> EntryPoint<Id> for MisbehavingEntryPoint<Id, B, M> {
            type Protocol = <M::EntryPoint as EntryPoint<Id>>::Protocol;
            fn entry_round_id() -> RoundId {
                M::EntryPoint::entry_round_id()
            }
            fn make_round(
                self,
                rng: &mut dyn CryptoRngCore,
                shared_randomness: &[u8],
                id: &Id,
            ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError> {
                let round = self.inner.make_round(rng, shared_randomness, id)?;
                Ok(wrap::<Id, B, M>(round, self.behavior))
            }
        }

        fn wrap<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>>(
            round: BoxedRound<Id, <M::EntryPoint as EntryPoint<Id>>::Protocol>,
            behavior: Option<B>,
        ) -> BoxedRound<Id, <M::EntryPoint as EntryPoint<Id>>::Protocol> {
            match behavior {
                None => round,
                Some(behavior) => BoxedRound::new_dynamic(MisbehavingRound::<Id, B, M> {
                    round,
                    behavior,
                    phantom: PhantomData,
                }),
            }
        }

        impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> Debug for MisbehavingRound<Id, B, M> {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                self.round.fmt(f)
            }
        }
        struct MisbehavingRound<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> {
            round: BoxedRound<Id, <M::EntryPoint as EntryPoint<Id>>::Protocol>,
            behavior: B,
            phantom: PhantomData<fn() -> M>,
        }

        impl<Id: PartyId, B: Behavior, M: Misbehaving<Id, B>> Round<Id> for MisbehavingRound<Id, B, M> {
            type Protocol = <M::EntryPoint as EntryPoint<Id>>::Protocol;
            fn transition_info(&self) -> TransitionInfo {
                self.round.transition_info()
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                self.round.communication_info()
            }
            fn make_echo_broadcast(
                &self,
                rng: &mut dyn CryptoRngCore,
                format: &BoxedFormat,
            ) -> Result<EchoBroadcast, LocalError> {
                let x = self.round.make_echo_broadcast(rng, format)?;
                M::modify_echo_broadcast(rng, &self.round, &self.behavior, format, x)
            }
            fn make_normal_broadcast(
                &self,
                rng: &mut dyn CryptoRngCore,
                format: &BoxedFormat,
            ) -> Result<NormalBroadcast, LocalError> {
                let x = self.round.make_normal_broadcast(rng, format)?;
                M::modify_normal_broadcast(rng, &self.round, &self.behavior, format, x)
            }
            fn make_direct_message(
                &self,
                rng: &mut dyn CryptoRngCore,
                format: &BoxedFormat,
                destination: &Id,
            ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
                let (dm, artifact) = self.round.make_direct_message(rng, format, destination)?;
                M::modify_direct_message(rng, &self.round, &self.behavior, format, destination, dm, artifact)
            }
            fn receive_message(
                &self,
                format: &BoxedFormat,
                from: &Id,
                message: ProtocolMessage,
            ) -> Result<Payload, ReceiveError<Id, Self::Protocol>> {
                self.round.receive_message(format, from, message)
            }
            fn finalize(
                self: Box<Self>,
                rng: &mut dyn CryptoRngCore,
                payloads: BTreeMap<Id, Payload>,
                artifacts: BTreeMap<Id, Artifact>,
            ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError> {
                let Self { round, behavior, .. } = *self;
                let outcome = match M::override_finalize(rng, round, &behavior, payloads, artifacts)? {
                    FinalizeOverride::UseDefault { round, payloads, artifacts } => {
                        round.finalize(rng, payloads, artifacts)?
                    }
                    FinalizeOverride::Override(outcome) => outcome,
                };
                Ok(match outcome {
                    FinalizeOutcome::AnotherRound(round) => {
                        FinalizeOutcome::AnotherRound(wrap::<Id, B, M>(round, Some(behavior)))
                    }
                    x => x,
                })
            }
        }
    }
}
