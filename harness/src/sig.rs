//! The signature scheme the harness runs the components with: Ed25519 (ring).  As with the production scheme, a
//! serialized key followed by more bytes still deserializes.
use anyhow::{anyhow, Result};
use cdn_proto::crypto::signature::{KeyPair, Serializable, SignatureScheme};
use ring::signature::{Ed25519KeyPair, KeyPair as _, UnparsedPublicKey, ED25519};

pub struct Ed;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Pk(pub [u8; 32]);

/// A serialized key starts with this, so that there are malformed ones.
pub const MARK: u8 = 0x5A;

impl Serializable for Pk {
    fn serialize(&self) -> Result<Vec<u8>> {
        let mut v = vec![MARK];
        v.extend_from_slice(&self.0);
        Ok(v)
    }
    fn deserialize(b: &[u8]) -> Result<Self> {
        if b.len() < 33 || b[0] != MARK {
            return Err(anyhow!("malformed key"));
        }
        Ok(Pk(b[1..33].try_into()?))
    }
}

impl SignatureScheme for Ed {
    type PrivateKey = [u8; 32];
    type PublicKey = Pk;
    fn sign(sk: &[u8; 32], namespace: &'static str, message: &[u8]) -> Result<Vec<u8>> {
        Ok(sign_raw(sk, namespace, message))
    }
    fn verify(pk: &Pk, namespace: &'static str, message: &[u8], signature: &[u8]) -> bool {
        let mut m = namespace.as_bytes().to_vec();
        m.extend_from_slice(message);
        UnparsedPublicKey::new(&ED25519, pk.0).verify(&m, signature).is_ok()
    }
}

pub fn sign_raw(sk: &[u8; 32], namespace: &str, message: &[u8]) -> Vec<u8> {
    let kp = Ed25519KeyPair::from_seed_unchecked(sk).expect("32 bytes");
    let mut m = namespace.as_bytes().to_vec();
    m.extend_from_slice(message);
    kp.sign(&m).as_ref().to_vec()
}

pub fn keypair(n: u64) -> KeyPair<Ed> {
    let mut sk = [0u8; 32];
    for (i, c) in sk.chunks_mut(8).enumerate() {
        c.copy_from_slice(&crate::interpose::mix(n.wrapping_mul(31).wrapping_add(i as u64 + 1)).to_le_bytes());
    }
    let kp = Ed25519KeyPair::from_seed_unchecked(&sk).expect("32 bytes");
    KeyPair { public_key: Pk(kp.public_key().as_ref().try_into().expect("32 bytes")), private_key: sk }
}

/// The serialized public key of key number `n`: what the system identifies a user by.
pub fn pk_bytes(n: u64) -> Vec<u8> {
    keypair(n).public_key.serialize().expect("infallible")
}

pub const USER_NS: &str = "espresso-cdn-user-marshal-auth";
pub const BROKER_NS: &str = "espresso-cdn-broker-broker-auth";
